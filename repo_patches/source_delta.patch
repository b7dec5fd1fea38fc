From 01ade26d5e54a6943116d52fb680bd4780fac952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:55 +0000
Subject: [PATCH 01/73] fix: keep one axis name per axis when flattening or
 splitting trace edges

---
 tensornetwork/network_components.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index d8125e8..70ccbe1 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1342,6 +1342,7 @@ def _flatten_trace_edges(edges: List[Edge],
   """
   node = edges[0].node1  # We are in the trace case, so this is the only node.
   backend = node.backend
+  axis_names = node.axis_names
   # Flatten all of the edge's axes into a a single list.
   perm_back = [min(e.axis1, e.axis2) for e in edges]
   perm_back += [max(e.axis1, e.axis2) for e in edges]
@@ -1358,6 +1359,8 @@ def _flatten_trace_edges(edges: List[Edge],
   edge1 = Edge(node1=node, axis1=len(perm_front), name="TraceFront")
   edge2 = Edge(node1=node, axis1=len(perm_front) + 1, name="TraceBack")
   node.edges = node.edges[:len(perm_front)] + [edge1, edge2]
+  if axis_names:
+    node.axis_names = [axis_names[n] for n in range(len(node.edges))]
   new_edge = connect(edge1, edge2, new_edge_name)
   # pylint: disable=expression-not-assigned
   [edge.disable() for edge in edges]  #disable edges!
@@ -1510,6 +1513,7 @@ def _split_trace_edge(
   """
   node = edge.node1  # We are in the trace case, so this is the only node.
   backend = node.backend
+  axis_names = node.axis_names
   # Permute until edge axes to be split are at the back and reshape.
   perm_back = [min(edge.axis1, edge.axis2)]
   perm_back += [max(edge.axis1, edge.axis2)]
@@ -1531,6 +1535,10 @@ def _split_trace_edge(
     new_edges.append(
         connect(edge1, edge2,
                 new_edge_names[idx] if new_edge_names is not None else None))
+  if axis_names:
+    node.axis_names = [axis_names[n] for n in range(len(perm_front))] + [
+        str(n) for n in range(len(perm_front), len(node.edges))
+    ]
   # pylint: disable=expression-not-assigned
   edge.disable()  # disable old edge!
   return new_edges
-- 
2.43.0


From 73e0da676270cb74d9090e4ca1081b87d90a61d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:55 +0000
Subject: [PATCH 02/73] fix: slice_edge refuses start indices below minus the
 edge dimension

---
 tensornetwork/network_components.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 70ccbe1..cf2436d 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1665,7 +1665,8 @@ def slice_edge(edge: Edge, start_index: int, length: int) -> Edge:
   """
   if length <= 0:
     raise ValueError("Length of slice must be positive.")
-  if ((start_index + length > edge.dimension) or (-length < start_index < 0)):
+  if ((start_index + length > edge.dimension) or
+      (-length < start_index < 0) or (start_index < -edge.dimension)):
     raise ValueError("Length {} slice beginning at {} is invalid for edge of "
                      "dimension {}".format(length, start_index, edge.dimension))
 
-- 
2.43.0


From d34ee7ba85588cf2b3692a812e5be02985cee6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:53 +0000
Subject: [PATCH 03/73] fix: split_edge keeps axis names unique and on their
 edges

---
 tensornetwork/network_components.py | 31 +++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index cf2436d..b96334d 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1495,6 +1495,22 @@ def flatten_all_edges(nodes: Iterable[AbstractNode]) -> List[Edge]:
   return flattened_edges
 
 
+def _extend_axis_names(axis_names: List[Text],
+                       new_names: Optional[List[Text]],
+                       num_new: int) -> List[Text]:
+  """Append names for `num_new` new axes such that all names are unique."""
+  result = list(axis_names) + list(new_names or [])
+  if new_names and len(set(result)) == len(result):
+    return result
+  result = list(axis_names)
+  n = len(result)
+  while len(result) < len(axis_names) + num_new:
+    if str(n) not in axis_names:
+      result.append(str(n))
+    n += 1
+  return result
+
+
 def _split_trace_edge(
     edge: Edge,
     shape: Tuple[int, ...],
@@ -1536,9 +1552,8 @@ def _split_trace_edge(
         connect(edge1, edge2,
                 new_edge_names[idx] if new_edge_names is not None else None))
   if axis_names:
-    node.axis_names = [axis_names[n] for n in range(len(perm_front))] + [
-        str(n) for n in range(len(perm_front), len(node.edges))
-    ]
+    node.axis_names = _extend_axis_names(node.axis_names[:len(perm_front)],
+                                         None, 2 * len(shape))
   # pylint: disable=expression-not-assigned
   edge.disable()  # disable old edge!
   return new_edges
@@ -1614,13 +1629,9 @@ def split_edge(edge: Edge,
       new_dangling_edges.append(new_dangling_edge)
     # TODO: Allow renaming of new axes (possibly distinct from new_edge_names).
     if axis_names:
-      new_axis_names = [axis_names[n] for n in range(len(unaffected_shape))]
-      if new_edge_names:
-        new_axis_names.extend(new_edge_names)
-      else:
-        new_axis_names.extend(
-            [str(n) for n in range(len(unaffected_shape), len(node.edges))])
-      node.axis_names = new_axis_names
+      # `reorder_axes` keeps the names of the unaffected axes at the front.
+      node.axis_names = _extend_axis_names(node.axis_names[:len(perm_front)],
+                                           new_edge_names, len(shape))
     else:
       node.axis_names = [str(n) for n in range(len(node.edges))]
 
-- 
2.43.0


From 51b07544a2e567f9d8456c9e0cde21715138c69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:52 +0000
Subject: [PATCH 04/73] fix: ncon sums singly appearing closed labels located
 on different tensors

---
 tensornetwork/ncon_interface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/ncon_interface.py b/tensornetwork/ncon_interface.py
index ab70948..ccbf8f5 100644
--- a/tensornetwork/ncon_interface.py
+++ b/tensornetwork/ncon_interface.py
@@ -414,7 +414,9 @@ def _jittable_ncon(tensors: List[Tensor], flat_labels: Tuple[int],
 
   for loc in locs:
     labels = network_structure[loc]
-    contractable_inds = [labels.index(l) for l in contractable_labels]
+    contractable_inds = [
+        labels.index(l) for l in contractable_labels if l in labels
+    ]
     network_structure[loc] = [l for l in labels if l not in contractable_labels]
     tensors[loc] = backend_obj.sum(tensors[loc], tuple(contractable_inds))
 
-- 
2.43.0


From 61990da2458450a03b3750a13a91ea9eb5e60288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:12 +0000
Subject: [PATCH 05/73] fix: ncon collapses batch labels repeated on one tensor
 to their diagonal

---
 tensornetwork/ncon_interface.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/tensornetwork/ncon_interface.py b/tensornetwork/ncon_interface.py
index ccbf8f5..f47b053 100644
--- a/tensornetwork/ncon_interface.py
+++ b/tensornetwork/ncon_interface.py
@@ -277,6 +277,26 @@ def _partial_trace(
   return tensor, labels, []
 
 
+def _batch_diagonal(tensor: Tensor, labels: List, label: int,
+                    backend_obj: AbstractBackend) -> Tuple[Tensor, List]:
+  """
+  Collapse the first two axes of `tensor` labelled `label` into a single
+  axis, by taking the diagonal of `tensor` along these axes.
+  Args:
+    tensor: A tensor.
+    labels: The ncon-style labels of `tensor`.
+    label: A batch label which appears more than once in `labels`.
+    backend_obj: A backend object.
+  Returns:
+    Tensor: The collapsed tensor.
+    List: Its labels.
+  """
+  positions = [n for n, l in enumerate(labels) if l == label][:2]
+  free = [n for n in range(len(labels)) if n not in positions]
+  tensor = backend_obj.transpose(tensor, tuple(free + positions))
+  return backend_obj.diagonal(tensor), [labels[n] for n in free] + [label]
+
+
 def _batch_cont(
     t1: Tensor, t2: Tensor, tensors: List[Tensor],
     network_structure: List[List], con_order: List, common_batch_labels: Set,
@@ -391,6 +411,14 @@ def _jittable_ncon(tensors: List[Tensor], flat_labels: Tuple[int],
   init_con_order = [c for c in con_order]
   init_network_structure = [c for c in network_structure]
 
+  # collapse batch labels appearing more than once on the same tensor
+  for n, labels in enumerate(network_structure):
+    for l in set(labels):
+      while labels.count(l) > 1 and (l < 0 or flat_labels.count(l) > 2):
+        tensors[n], labels = _batch_diagonal(tensors[n], labels, l, backend_obj)
+        flat_labels.remove(l)
+    network_structure[n] = labels
+
   # partial trace
   for n, tensor in enumerate(tensors):
     tensors[n], network_structure[n], contracted_labels = _partial_trace(
-- 
2.43.0


From f930008fa2635f93a6cce662cb1563c18f6d2897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:11 +0000
Subject: [PATCH 06/73] fix: copy maps trace edges to the edges of the copied
 nodes

---
 tensornetwork/network_operations.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/network_operations.py b/tensornetwork/network_operations.py
index 9817511..79c79f8 100644
--- a/tensornetwork/network_operations.py
+++ b/tensornetwork/network_operations.py
@@ -74,9 +74,11 @@ def copy(nodes: Iterable[AbstractNode],
 
     # both nodes should be copied
     new_edge = Edge(node_dict[node1], axis1, edge.name, node_dict[node2], axis2)
-    if not edge.is_trace():
-      node_dict[node2].add_edge(new_edge, axis2)
-      node_dict[node1].add_edge(new_edge, axis1)
+    # the copied node already carries its own copy of a trace edge,
+    # replace it such that `edge_dict` leads to the edge of the copy
+    override = edge.is_trace()
+    node_dict[node2].add_edge(new_edge, axis2, override)
+    node_dict[node1].add_edge(new_edge, axis1, override)
 
     edge_dict[edge] = new_edge
 
-- 
2.43.0


From 82dfca0ae9326b973d899ced2413a4f44307df7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:11 +0000
Subject: [PATCH 07/73] fix: nodes_from_json keeps edges whose first node was
 not serialized

---
 tensornetwork/network_operations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensornetwork/network_operations.py b/tensornetwork/network_operations.py
index 79c79f8..6e13d9b 100644
--- a/tensornetwork/network_operations.py
+++ b/tensornetwork/network_operations.py
@@ -969,6 +969,9 @@ def nodes_from_json(json_str: str) -> Tuple[List[AbstractNode],
   for e in network_dict['edges']:
     e_nodes = [node_ids.get(n_id) for n_id in e['node_ids']]
     axes = e['attributes']['axes']
+    if e_nodes[0] is None:
+      # the first node was excluded from the serialization
+      e_nodes, axes = e_nodes[::-1], axes[::-1]
     edge = Edge(node1=e_nodes[0],
                 axis1=axes[0],
                 node2=e_nodes[1],
-- 
2.43.0


From 58771d5a3bcbe2ef83cc566207bed71e0c5b36e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:11 +0000
Subject: [PATCH 08/73] fix: save_nodes restores the names of the edges it
 saves

---
 tensornetwork/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensornetwork/utils.py b/tensornetwork/utils.py
index b91dd8c..e51d6ef 100644
--- a/tensornetwork/utils.py
+++ b/tensornetwork/utils.py
@@ -74,10 +74,9 @@ def save_nodes(nodes: List[AbstractNode], path: Union[str, BinaryIO]) -> None:
       node_group = nodes_group.create_group(node.name)
       node._save_node(node_group)
       for edge in node.edges:
-        if edge.node1 == node and edge in edges:
+        if edge.node1 == node and edge.name not in edges_group:
           edge_group = edges_group.create_group(edge.name)
           edge._save_edge(edge_group)
-          edges.remove(edge)
 
   #name edges and nodes back  to their original names
   for n, node in enumerate(nodes):
-- 
2.43.0


From d5cad0ea7d42800ec3f1376ea6fe7e8f47d8011c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:23 +0000
Subject: [PATCH 09/73] fix: contract_path keeps nodes whose trace edges were
 contracted

---
 .../contractors/opt_einsum_paths/path_contractors.py          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
index 764f2e8..f04a096 100644
--- a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
+++ b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
@@ -365,11 +365,13 @@ def contract_path(path: Tuple[List[Tuple[int,
   Returns:
     Final node after full contraction.
   """
+  nodes = list(nodes)
   edges = get_all_edges(nodes)
   for edge in edges:
     if not edge.is_disabled:  #if its disabled we already contracted it
       if edge.is_trace():
-        contract_parallel(edge)
+        index = nodes.index(edge.node1)
+        nodes[index] = contract_parallel(edge)
 
   if len(nodes) == 1:
     newnode = nodes[0].copy()
-- 
2.43.0


From 4c64cb88c06dc430bf6a317866629948a5233542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:39 +0000
Subject: [PATCH 10/73] fix: auto contractor on a single node contracts only
 its trace edges

---
 .../contractors/opt_einsum_paths/path_contractors.py       | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
index f04a096..3c6982c 100644
--- a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
+++ b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
@@ -223,20 +223,19 @@ def auto(nodes: Iterable[AbstractNode],
   if n == 1:
     if not ignore_edge_order:
       if output_edge_order is None:
-        output_edge_order = list(
-            (get_all_edges(_nodes) - get_all_nondangling(_nodes)))
+        output_edge_order = list(get_subgraph_dangling(_nodes))
         if len(output_edge_order) > 1:
           raise ValueError(
               "The final node after contraction has more than "
               "one dangling edge. In this case `output_edge_order` "
               "has to be provided.")
 
-    edges = get_all_nondangling(_nodes)
+    # only trace edges are contracted, edges to other nodes remain
+    edges = {edge for edge in get_all_nondangling(_nodes) if edge.is_trace()}
     if edges:
       final_node = contract_parallel(edges.pop())
     else:
       final_node = list(_nodes)[0]
-    final_node.reorder_edges(output_edge_order)
     if not ignore_edge_order:
       final_node.reorder_edges(output_edge_order)
     return final_node
-- 
2.43.0


From f28b961c77c059f6a9359fb6f2784f5762fa6f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:37 +0000
Subject: [PATCH 11/73] fix: saved scalar nodes can be loaded from hdf5

---
 tensornetwork/network_components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index b96334d..c5f1164 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -479,7 +479,7 @@ class AbstractNode(ABC):
         'backend', dtype=string_type, data=self.backend.name)
     node_group.create_dataset('name', data=self.name, dtype=string_type)
     node_group.create_dataset('shape', data=self.shape)
-    if self.axis_names:
+    if self.axis_names is not None:
       node_group.create_dataset('axis_names',
                                 dtype=string_type,
                                 data=np.array(self.axis_names, dtype=object))
-- 
2.43.0


From e8fd15daa3fc41a099dd4191cec8240e38312fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:56 +0000
Subject: [PATCH 12/73] fix: qr and rq with non_negative_diagonal stay exact
 for vanishing or complex diagonals

---
 tensornetwork/backends/numpy/decompositions.py      | 4 ++++
 tensornetwork/backends/tensorflow/decompositions.py | 8 ++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/backends/numpy/decompositions.py b/tensornetwork/backends/numpy/decompositions.py
index 29feb63..2342efe 100644
--- a/tensornetwork/backends/numpy/decompositions.py
+++ b/tensornetwork/backends/numpy/decompositions.py
@@ -90,6 +90,8 @@ def qr(
   q, r = np.linalg.qr(tensor)
   if non_negative_diagonal:
     phases = np.sign(np.diagonal(r))
+    # a vanishing diagonal entry leaves its row and column unchanged
+    phases = np.where(phases == 0, np.ones_like(phases), phases)
     q = q * phases
     r = phases.conj()[:, None] * r
   center_dim = q.shape[1]
@@ -114,6 +116,8 @@ def rq(
   q, r = np.linalg.qr(np.conj(np.transpose(tensor)))
   if non_negative_diagonal:
     phases = np.sign(np.diagonal(r))
+    # a vanishing diagonal entry leaves its row and column unchanged
+    phases = np.where(phases == 0, np.ones_like(phases), phases)
     q = q * phases
     r = phases.conj()[:, None] * r
   r, q = np.conj(np.transpose(r)), np.conj(
diff --git a/tensornetwork/backends/tensorflow/decompositions.py b/tensornetwork/backends/tensorflow/decompositions.py
index dcc5bba..235db76 100644
--- a/tensornetwork/backends/tensorflow/decompositions.py
+++ b/tensornetwork/backends/tensorflow/decompositions.py
@@ -168,8 +168,10 @@ def qr(
   q, r = tf.linalg.qr(tensor)
   if non_negative_diagonal:
     phases = tf.math.sign(tf.linalg.diag_part(r))
+    # a vanishing diagonal entry leaves its row and column unchanged
+    phases = tf.where(phases == 0, tf.ones_like(phases), phases)
     q = q * phases
-    r = phases[:, None] * r
+    r = tf.math.conj(phases)[:, None] * r
   center_dim = tf.shape(q)[1]
   q = tf.reshape(q, tf.concat([left_dims, [center_dim]], axis=-1))
   r = tf.reshape(r, tf.concat([[center_dim], right_dims], axis=-1))
@@ -218,8 +220,10 @@ def rq(
   q, r = tf.linalg.qr(tf.math.conj(tf.transpose(tensor)))
   if non_negative_diagonal:
     phases = tf.math.sign(tf.linalg.diag_part(r))
+    # a vanishing diagonal entry leaves its row and column unchanged
+    phases = tf.where(phases == 0, tf.ones_like(phases), phases)
     q = q * phases
-    r = phases[:, None] * r
+    r = tf.math.conj(phases)[:, None] * r
   r, q = tf.math.conj(tf.transpose(r)), tf.math.conj(
       tf.transpose(q))  #M=r*q at this point
   center_dim = tf.shape(r)[1]
-- 
2.43.0


From 353400ae30c4e617d8548d3ab1fd88f0755124d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:56 +0000
Subject: [PATCH 13/73] fix: numpy backend sums over all axes when no axis is
 given

---
 tensornetwork/backends/numpy/numpy_backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index 2d37539..509ac08 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -604,7 +604,9 @@ class NumPyBackend(abstract_backend.AbstractBackend):
           tensor: Tensor,
           axis: Optional[Sequence[int]] = None,
           keepdims: bool = False) -> Tensor:
-    return np.sum(tensor, axis=tuple(axis), keepdims=keepdims)
+    if axis is not None:
+      axis = tuple(axis)
+    return np.sum(tensor, axis=axis, keepdims=keepdims)
 
   def matmul(self, tensor1: Tensor, tensor2: Tensor) -> Tensor:
     if (tensor1.ndim <= 1) or (tensor2.ndim <= 1):
-- 
2.43.0


From 7ce20706941c517ad3a9428ca4d260f9d0cd6af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:10 +0000
Subject: [PATCH 14/73] fix: numpy tensordot over all axes accepts scalars,
 negative axes and high rank

---
 tensornetwork/backends/numpy/numpy_backend.py | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index 509ac08..125bd8d 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -39,17 +39,20 @@ class NumPyBackend(abstract_backend.AbstractBackend):
       if (len(axes[0]) == a.ndim) and (len(axes[1]) == b.ndim):
         if not len(axes[0]) == len(axes[1]):
           raise ValueError("shape-mismatch for sum")
-        u, pos1, _ = np.intersect1d(axes[0],
-                                    axes[1],
-                                    return_indices=True,
-                                    assume_unique=True)
-        labels = int_to_string[0:len(u)]
-        labels_1 = labels[pos1]
-        labels_2 = np.array([''] * len(labels_1))
-
-        labels_2[np.array(axes[1])] = labels
-        einsum_label = ','.join([''.join(labels_1), ''.join(labels_2)])
-        return np.array(np.einsum(einsum_label, a, b, optimize=True))
+        if 0 < a.ndim <= len(int_to_string):
+          axes_1 = [axis % a.ndim for axis in axes[0]]
+          axes_2 = [axis % b.ndim for axis in axes[1]]
+          u, pos1, _ = np.intersect1d(axes_1,
+                                      axes_2,
+                                      return_indices=True,
+                                      assume_unique=True)
+          labels = int_to_string[0:len(u)]
+          labels_1 = labels[pos1]
+          labels_2 = np.array([''] * len(labels_1))
+
+          labels_2[np.array(axes_2)] = labels
+          einsum_label = ','.join([''.join(labels_1), ''.join(labels_2)])
+          return np.array(np.einsum(einsum_label, a, b, optimize=True))
       return np.tensordot(a, b, axes)
     return np.tensordot(a, b, axes)
 
-- 
2.43.0


From c81d5dbba39ecd596c638ae60f9283af52d500a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:10 +0000
Subject: [PATCH 15/73] fix: tensorflow random_uniform honours its seed

---
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index d0d2463..be4f9b9 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -174,7 +174,6 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
               minval=boundaries[0],
               maxval=boundaries[1],
               dtype=dtype.real_dtype))
-    tf.random.set_seed(10)
     #pylint: disable=unexpected-keyword-arg
     a = tf.random.uniform(
         shape=shape, minval=boundaries[0], maxval=boundaries[1], dtype=dtype)
-- 
2.43.0


From da38a622ddc85dd2d66474f5ed213953c1a41347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:10 +0000
Subject: [PATCH 16/73] fix: tensorflow diagflat flattens its input

---
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index be4f9b9..5033826 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -311,7 +311,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
       tensor: A new tensor with all zeros save the specified diagonal.
     """
     #pylint: disable=unexpected-keyword-arg
-    return tf.linalg.diag(tensor, k=k)
+    return tf.linalg.diag(tf.reshape(tensor, [-1]), k=k)
 
   def trace(self, tensor: Tensor, offset: int = 0, axis1: int = -2,
             axis2: int = -1) -> Tensor:
-- 
2.43.0


From 466a9ae773bdb148640ce6f63aec88f784ec8b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:57 +0000
Subject: [PATCH 17/73] fix: Tensor.size of a scalar is an integer

---
 tensornetwork/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/tensor.py b/tensornetwork/tensor.py
index 7c39448..7a0210d 100644
--- a/tensornetwork/tensor.py
+++ b/tensornetwork/tensor.py
@@ -32,7 +32,7 @@ class Tensor():
     self.backend = backend_obj
     self.array = self.backend.convert_to_tensor(array)
     self.shape = array.shape
-    self.size = np.prod(self.shape)
+    self.size = np.prod(self.shape, dtype=np.int64)
     self.ndim = len(self.shape)
 
   @property
-- 
2.43.0


From f8accdf19c0004674c305eac117ee847922ed55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:57 +0000
Subject: [PATCH 18/73] fix: tensorflow item works for size one tensors of any
 rank

---
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index 5033826..1669932 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -393,7 +393,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
                          f"got {tensor.shape}")
 
     if numel == 1:
-      return tensor[0]
+      return tf.reshape(tensor, [])
     return tensor
 
   def power(self, a: Tensor, b: Union[Tensor, float]) -> Tensor:
-- 
2.43.0


From db0632838e10da0aca54353a11457a1c6c015f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:57 +0000
Subject: [PATCH 19/73] fix: kron refuses tensors of different backends

---
 tensornetwork/linalg/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/linalg/operations.py b/tensornetwork/linalg/operations.py
index d8c484f..139323f 100644
--- a/tensornetwork/linalg/operations.py
+++ b/tensornetwork/linalg/operations.py
@@ -322,7 +322,7 @@ def kron(tensorA: Tensor, tensorB: Tensor) -> Tensor:
     ValueError: - If backends, are not matching.
                 - If ndims of the input tensors are not even.
   """
-  tensors = [tensorA, tensorA]
+  tensors = [tensorA, tensorB]
   all_backends_same, errstr = _check_backends(tensors, "kron")
   if not all_backends_same:
     raise ValueError(errstr)
-- 
2.43.0


From a25daa667ea320fbc8cbd24166e64c9cd7a32489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:24 +0000
Subject: [PATCH 20/73] fix: jax index_update uses the indexed update syntax

---
 tensornetwork/backends/jax/jax_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/backends/jax/jax_backend.py b/tensornetwork/backends/jax/jax_backend.py
index 447cb56..f54283a 100644
--- a/tensornetwork/backends/jax/jax_backend.py
+++ b/tensornetwork/backends/jax/jax_backend.py
@@ -725,7 +725,7 @@ class JaxBackend(abstract_backend.AbstractBackend):
 
   def index_update(self, tensor: Tensor, mask: Tensor,
                    assignee: Tensor) -> Tensor:
-    return libjax.ops.index_update(tensor, mask, assignee)
+    return jnp.asarray(tensor).at[mask].set(assignee)
 
   def inv(self, matrix: Tensor) -> Tensor:
     if len(matrix.shape) > 2:
-- 
2.43.0


From 3ea9dee824882f06ae462b0254ab3cde01e464ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 21/73] fix: apply_two_site_gate without truncation leaves the
 orthogonality center where it reports it

The QR branch left the isometric factor on the site that was then reported as
the center (the SVD branch does the opposite), so check_canonical failed and
measurements relying on the reported center were wrong.
---
 tensornetwork/matrixproductstates/base_mps.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index c8500cb..447f017 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -496,9 +496,9 @@ class BaseMPS:
       site2: The second site where the gate acts.
       max_singular_values: The maximum number of singular values to keep.
       max_truncation_err: The maximum allowed truncation error.
-      center_position: An optional value to choose the MPS tensor at
-        `center_position` to be isometric after the application of the gate.
-        Defaults to `site1`. If the MPS is canonical (i.e.
+      center_position: An optional value to choose which of the two MPS
+        tensors carries the orthogonality center after the application of
+        the gate (the other one is isometric). Defaults to `site1`. If the MPS is canonical (i.e.
         `BaseMPS.center_position != None`), and if the orthogonality center
         coincides with either `site1` or `site2`,  the orthogonality center will
         be shifted to `center_position` (`site1` by default). If the
@@ -581,14 +581,15 @@ class BaseMPS:
     else:
       tw = self.backend.zeros(1, dtype=self.dtype)
       if center_position == site2:
-        R, Q = self.backend.rq(tensor, pivot_axis=2)
-        left_tensor = R
-        right_tensor = Q
-        set_center_position(site2)
-      else:
+        # the orthogonality center is the non-isometric factor
         Q, R = self.backend.qr(tensor, pivot_axis=2)
         left_tensor = Q
         right_tensor = R
+        set_center_position(site2)
+      else:
+        R, Q = self.backend.rq(tensor, pivot_axis=2)
+        left_tensor = R
+        right_tensor = Q
         set_center_position(site1)
 
     self.tensors[site1] = left_tensor
-- 
2.43.0


From 93c3efde2fc4a9efb792db113d35c06817c88f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:55 +0000
Subject: [PATCH 22/73] fix: measure_two_body_correlator returns one value per
 requested site, in the requested order

---
 tensornetwork/matrixproductstates/base_mps.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index 447f017..830b476 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -343,7 +343,7 @@ class BaseMPS:
       raise ValueError(
           "Site site1 out of range: {} not between 0 <= site < N = {}.".format(
               site1, N))
-    sites2 = np.array(sites2)  #enable logical indexing
+    sites2 = np.array(sites2, dtype=np.int64)  #enable logical indexing
 
     # we break the computation into two parts:
     # first we get all correlators <op2(site2) op1(site1)> with site2 < site1
@@ -363,7 +363,7 @@ class BaseMPS:
     ls = self.left_envs(
         np.append(np.mod(left_sites, N), site1).astype(np.int64))
 
-    c = []
+    correlators = {}
     if len(left_sites) > 0:
 
       A = Node(self.tensors[site1], backend=self.backend)
@@ -404,14 +404,12 @@ class BaseMPS:
           R[1] ^ conj_A[2]
 
           res = (((L @ A) @ O2) @ conj_A) @ R
-          c.append(res.tensor)
+          correlators[n] = res.tensor
         if n > n1:
           R = Node(
               self.apply_transfer_operator(n % N, 'right', R.tensor),
               backend=self.backend)
 
-      c = list(reversed(c))
-
     # compute <op2(site1)op1(site1)>
     if site1 in sites2:
       O1 = Node(op1, backend=self.backend)
@@ -430,7 +428,7 @@ class BaseMPS:
       conj_A[1] ^ O1[0]
       O = O1 @ O2
       res = (((L @ A) @ O) @ conj_A) @ R
-      c.append(res.tensor)
+      correlators[site1] = res.tensor
 
     # compute <op1(site1) op2(site2)> for site1 < site2
     if len(right_sites) > 0:
@@ -470,13 +468,14 @@ class BaseMPS:
           R[0] ^ A[2]
           R[1] ^ conj_A[2]
           res = L @ A @ O2 @ conj_A @ R
-          c.append(res.tensor)
+          correlators[n] = res.tensor
 
         if n < n2:
           L = Node(
               self.apply_transfer_operator(n % N, 'left', L.tensor),
               backend=self.backend)
-    return [self.backend.item(o) for o in c]
+    # return the values in the order in which the sites were requested
+    return [self.backend.item(correlators[s]) for s in sites2.tolist()]
 
   def apply_two_site_gate(self,
                           gate: Tensor,
-- 
2.43.0


From c1fead2c54bc3a67ce380c4c31fdb9658e93bb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:55 +0000
Subject: [PATCH 23/73] fix: check_canonical of a single-site MPS reports no
 deviation instead of raising

---
 tensornetwork/matrixproductstates/base_mps.py   | 2 ++
 tensornetwork/matrixproductstates/finite_mps.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index 830b476..f5a454a 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -668,6 +668,8 @@ class BaseMPS:
       else:
         continue
       deviations.append(deviation**2)
+    if not deviations:  # a single site is its own orthogonality center
+      return self.backend.norm(self.backend.zeros((1,), dtype=self.dtype))
     return self.backend.sqrt(sum(deviations[1:], deviations[0]))
 
   def get_tensor(self, site: int) -> Tensor:
diff --git a/tensornetwork/matrixproductstates/finite_mps.py b/tensornetwork/matrixproductstates/finite_mps.py
index bc5dd8e..148b1ce 100644
--- a/tensornetwork/matrixproductstates/finite_mps.py
+++ b/tensornetwork/matrixproductstates/finite_mps.py
@@ -163,6 +163,8 @@ class FiniteMPS(BaseMPS):
       else:
         continue
       deviations.append(deviation**2)
+    if not deviations:  # a single site is its own orthogonality center
+      return self.backend.norm(self.backend.zeros((1,), dtype=self.dtype))
     return self.backend.sqrt(sum(deviations[1:], deviations[0]))
 
   def left_envs(self, sites: Sequence[int]) -> Dict:
-- 
2.43.0


From 819906be24fbcc01a89cf691ad941f48725ad3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:04 +0000
Subject: [PATCH 24/73] fix: normalising an MPS at its centre does not modify
 the caller's array

---
 tensornetwork/matrixproductstates/base_mps.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index f5a454a..f466624 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -169,7 +169,9 @@ class BaseMPS:
     if site == self.center_position:
       Z = self.norm(self.tensors[self.center_position])
       if normalize:
-        self.tensors[self.center_position] /= Z
+        # not in place: the tensor may be shared with the caller
+        self.tensors[self.center_position] = self.tensors[
+            self.center_position] / Z
       return Z
 
     #shift center_position to the right using QR or SV decomposition
-- 
2.43.0


From dfdb74e1813a2ff02e9931d115fb9a6d00ef127d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:46 +0000
Subject: [PATCH 25/73] fix: MPS truncation by error bound works on backends
 that trace functions

---
 tensornetwork/matrixproductstates/base_mps.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index f466624..8dce6a0 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -94,7 +94,6 @@ class BaseMPS:
     ########################################################################
     ##########       define functions for jitted operations       ##########
     ########################################################################
-    @partial(jit, backend=self.backend, static_argnums=(1, 2, 3))
     def svd(tensor,
             pivot_axis=2,
             max_singular_values=None,
@@ -106,7 +105,18 @@ class BaseMPS:
           max_truncation_error=max_truncation_error,
           relative=True)
 
-    self.svd = svd
+    jitted_svd = jit(svd, backend=self.backend, static_argnums=(1, 2, 3))
+
+    def svd_or_jitted_svd(tensor,
+                          pivot_axis=2,
+                          max_singular_values=None,
+                          max_truncation_error=None):
+      # with an error bound the number of values kept depends on the tensor,
+      # which cannot be traced
+      fun = jitted_svd if max_truncation_error is None else svd
+      return fun(tensor, pivot_axis, max_singular_values, max_truncation_error)
+
+    self.svd = svd_or_jitted_svd
 
     @partial(jit, backend=self.backend)
     def qr(tensor):
-- 
2.43.0


From c55e7b982f8eb50a66531ab2ce292f6b249a523e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:28 +0000
Subject: [PATCH 26/73] fix: charges of a single element keep one-dimensional
 unique values and labels

---
 tensornetwork/block_sparse/utils.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/tensornetwork/block_sparse/utils.py b/tensornetwork/block_sparse/utils.py
index b1caad7..69ceb79 100644
--- a/tensornetwork/block_sparse/utils.py
+++ b/tensornetwork/block_sparse/utils.py
@@ -201,11 +201,10 @@ def collapse(array: np.ndarray) -> np.ndarray:
     else:
       width = 8 - array.shape[1]
 
-    tmparray = np.squeeze(
-        np.concatenate(
-            [array, np.zeros((array.shape[0], width), dtype=array.dtype)],
-            axis=1).view(newdtype))
-  return np.squeeze(tmparray)
+    tmparray = np.concatenate(
+        [array, np.zeros((array.shape[0], width), dtype=array.dtype)],
+        axis=1).view(newdtype)
+  return np.ravel(tmparray)
 
 
 def expand(array: np.ndarray, original_dtype: Type[np.number],
@@ -226,7 +225,7 @@ def expand(array: np.ndarray, original_dtype: Type[np.number],
   """
   if original_ndim <= 1:
     #nothing to expand
-    return np.squeeze(array)
+    return array
   if array.ndim == 1:
     #the array has been collapsed
     #now we uncollapse it
-- 
2.43.0


From f3eb783ad8ea7daa7aca55fed897b7a8bd343a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:36 +0000
Subject: [PATCH 27/73] fix: charge operations keep the charge dtype instead of
 truncating to 16 bits

---
 .../block_sparse/blocksparse_utils.py         | 25 ++++++----
 tensornetwork/block_sparse/charge.py          | 46 ++++++++++++++-----
 2 files changed, 49 insertions(+), 22 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparse_utils.py b/tensornetwork/block_sparse/blocksparse_utils.py
index 9285632..6dd129a 100644
--- a/tensornetwork/block_sparse/blocksparse_utils.py
+++ b/tensornetwork/block_sparse/blocksparse_utils.py
@@ -109,7 +109,8 @@ def compute_sparse_lookup(
   obj.__init__(
       charges=unique_charges,
       charge_labels=None,
-      charge_types=charges[0].charge_types)
+      charge_types=charges[0].charge_types,
+      charge_dtype=unique_charges.dtype)
 
   tmp[label_to_unique] = label_to_unique
   lookup = tmp[inverse]
@@ -267,7 +268,8 @@ def reduce_charges(charges: List[BaseCharge],
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(
         np.empty((0, charges[0].num_symmetries), dtype=charges[0].dtype),
-        np.empty(0, dtype=charges[0].label_dtype), charges[0].charge_types)
+        np.empty(0, dtype=charges[0].label_dtype), charges[0].charge_types,
+        charges[0].dtype)
     if return_locations:
       return obj, np.empty(0, dtype=SIZE_T)
     return obj
@@ -296,7 +298,8 @@ def reduce_charges(charges: List[BaseCharge],
   reduced_labels = np.concatenate(
       [reduced_rows[n] for n in left_ind.charge_labels])
   obj = charges[0].__new__(type(charges[0]))
-  obj.__init__(reduced_qnums, reduced_labels, charges[0].charge_types)
+  obj.__init__(reduced_qnums, reduced_labels, charges[0].charge_types,
+               reduced_qnums.dtype)
 
   if return_locations:
     row_locs = [0] * left_ind.num_unique
@@ -368,7 +371,7 @@ def _find_diagonal_sparse_blocks(
 
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(block_qnums, np.arange(1, dtype=charges[0].label_dtype),
-                 charges[0].charge_types)
+                 charges[0].charge_types, block_qnums.dtype)
 
     return block_maps, obj, block_dims
 
@@ -388,7 +391,8 @@ def _find_diagonal_sparse_blocks(
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(
         np.zeros((0, charges[0].num_symmetries), dtype=charges[0].dtype),
-        np.arange(0, dtype=charges[0].label_dtype), charges[0].charge_types)
+        np.arange(0, dtype=charges[0].label_dtype), charges[0].charge_types,
+        charges[0].dtype)
 
     return [], obj, np.empty((2, 0), dtype=SIZE_T)
 
@@ -420,7 +424,7 @@ def _find_diagonal_sparse_blocks(
   obj = charges[0].__new__(type(charges[0]))
   obj.__init__(block_qnums,
                np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
-               charges[0].charge_types)
+               charges[0].charge_types, block_qnums.dtype)
   if cacher.do_caching:
     cacher.cache[hash_val] = (block_maps, obj, block_dims)
     return cacher.cache[hash_val]
@@ -492,7 +496,8 @@ def _find_transposed_diagonal_sparse_blocks(
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(
         np.empty((0, charges[0].num_symmetries), dtype=charges[0].dtype),
-        np.arange(0, dtype=charges[0].label_dtype), charges[0].charge_types)
+        np.arange(0, dtype=charges[0].label_dtype), charges[0].charge_types,
+        charges[0].dtype)
 
     return [], obj, np.empty((2, 0), dtype=SIZE_T)
 
@@ -550,7 +555,7 @@ def _find_transposed_diagonal_sparse_blocks(
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(block_qnums,
                  np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
-                 charges[0].charge_types)
+                 charges[0].charge_types, block_qnums.dtype)
 
   elif tr_partition == len(charges):
     # special case: reshape into col vector
@@ -582,7 +587,7 @@ def _find_transposed_diagonal_sparse_blocks(
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(block_qnums,
                  np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
-                 charges[0].charge_types)
+                 charges[0].charge_types, block_qnums.dtype)
   else:
 
     unique_row_qnums, new_row_degen = compute_fused_charge_degeneracies(
@@ -626,7 +631,7 @@ def _find_transposed_diagonal_sparse_blocks(
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(block_qnums,
                  np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
-                 charges[0].charge_types)
+                 charges[0].charge_types, block_qnums.dtype)
 
   if cacher.do_caching:
     cacher.cache[hash_val] = (block_maps, obj, block_dims)
diff --git a/tensornetwork/block_sparse/charge.py b/tensornetwork/block_sparse/charge.py
index 237b30d..e31c706 100644
--- a/tensornetwork/block_sparse/charge.py
+++ b/tensornetwork/block_sparse/charge.py
@@ -202,7 +202,10 @@ class BaseCharge:
         axis=0)
     obj = self.__new__(type(self))
     obj.__init__(
-        charges=charges, charge_labels=None, charge_types=self.charge_types)
+        charges=charges,
+        charge_labels=None,
+        charge_types=self.charge_types,
+        charge_dtype=self.dtype)
     return obj
 
   def __add__(self, other: "BaseCharge") -> "BaseCharge":
@@ -217,7 +220,10 @@ class BaseCharge:
     fused_charges = fuse_ndarray_charges(self.charges, other.charges,
                                          self.charge_types)
     obj = self.__new__(type(self))
-    obj.__init__(fused_charges, charge_types=self.charge_types)
+    obj.__init__(
+        fused_charges,
+        charge_types=self.charge_types,
+        charge_dtype=fused_charges.dtype)
     return obj
 
   def dual(self, take_dual: Optional[bool] = False) -> "BaseCharge":
@@ -241,7 +247,8 @@ class BaseCharge:
         obj.__init__(
             unique_dual_charges,
             charge_labels=self.charge_labels,
-            charge_types=self.charge_types)
+            charge_types=self.charge_types,
+            charge_dtype=self.dtype)
         return obj
       dual_charges = np.stack([
           self.charge_types[n].dual_charges(self._charges[:, n])
@@ -251,7 +258,10 @@ class BaseCharge:
 
       obj = self.__new__(type(self))
       obj.__init__(
-          dual_charges, charge_labels=None, charge_types=self.charge_types)
+          dual_charges,
+          charge_labels=None,
+          charge_types=self.charge_types,
+          charge_dtype=self.dtype)
       return obj
 
     return self
@@ -264,7 +274,10 @@ class BaseCharge:
     charges = np.concatenate([self.charges, other.charges], axis=1)
     charge_types = self.charge_types + other.charge_types
     return BaseCharge(
-        charges=charges, charge_labels=None, charge_types=charge_types)
+        charges=charges,
+        charge_labels=None,
+        charge_types=charge_types,
+        charge_dtype=charges.dtype)
 
   def __mul__(self, number: bool) -> "BaseCharge":
     if not isinstance(number, (bool, np.bool_)):
@@ -313,12 +326,14 @@ class BaseCharge:
           charges=out[0],
           charge_labels=np.arange(out[0].shape[0], dtype=self.label_dtype),
           charge_types=self.charge_types,
+          charge_dtype=self.dtype,
       )
       return obj, out[1], out[2]
     obj.__init__(
         charges=out,
         charge_labels=np.arange(out.shape[0], dtype=self.label_dtype),
         charge_types=self.charge_types,
+        charge_dtype=self.dtype,
     )
     return obj
 
@@ -367,13 +382,15 @@ class BaseCharge:
             charges=unique_charges,
             charge_labels=np.arange(
                 unique_charges.shape[0], dtype=self.label_dtype),
-            charge_types=self.charge_types)
+            charge_types=self.charge_types,
+            charge_dtype=self.dtype)
         tmp[0] = obj
       else:
         obj.__init__(
             charges=tmp,
             charge_labels=np.arange(tmp.shape[0], dtype=self.label_dtype),
-            charge_types=self.charge_types)
+            charge_types=self.charge_types,
+            charge_dtype=self.dtype)
         tmp = obj
       return tmp
 
@@ -383,7 +400,8 @@ class BaseCharge:
             charges=self._unique_charges,
             charge_labels=np.arange(
                 self._unique_charges.shape[0], dtype=self.label_dtype),
-            charge_types=self.charge_types)
+            charge_types=self.charge_types,
+            charge_dtype=self.dtype)
 
         out = [obj]
         if return_inverse:
@@ -406,7 +424,8 @@ class BaseCharge:
           charges=unique_charges,
           charge_labels=np.arange(
               unique_charges.shape[0], dtype=self.label_dtype),
-          charge_types=self.charge_types)
+          charge_types=self.charge_types,
+          charge_dtype=self.dtype)
       tmp[0] = obj
       return tmp
 
@@ -447,7 +466,7 @@ class BaseCharge:
     reduced_locs = reduced_ind_labels >= 0
     new_ind_labels = reduced_ind_labels[reduced_locs].astype(self.label_dtype)
     obj = self.__new__(type(self))
-    obj.__init__(reduced_charges, new_ind_labels, self.charge_types)
+    obj.__init__(reduced_charges, new_ind_labels, self.charge_types, self.dtype)
 
     if return_locations:
       return obj, strides * np.flatnonzero(reduced_locs).astype(np.uint32)
@@ -471,10 +490,13 @@ class BaseCharge:
       labels = self.charge_labels[n]
       unique_labels, new_labels = unique(labels, return_inverse=True)
       unique_charges = self.unique_charges[unique_labels, :]
-      obj.__init__(unique_charges, new_labels, self.charge_types)
+      obj.__init__(unique_charges, new_labels, self.charge_types, self.dtype)
       return obj
     obj.__init__(
-        self._charges[n, :], charge_labels=None, charge_types=self.charge_types)
+        self._charges[n, :],
+        charge_labels=None,
+        charge_types=self.charge_types,
+        charge_dtype=self.dtype)
     return obj
 
   @property
-- 
2.43.0


From beb54477e17726bb1ec51b9c9271d1b1e31b77ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:22 +0000
Subject: [PATCH 28/73] fix: equal charge lists compare equal whatever their
 storage

---
 tensornetwork/block_sparse/charge.py | 22 +++++++---------------
 tensornetwork/block_sparse/index.py  |  9 +++------
 2 files changed, 10 insertions(+), 21 deletions(-)

diff --git a/tensornetwork/block_sparse/charge.py b/tensornetwork/block_sparse/charge.py
index e31c706..0af6a9f 100644
--- a/tensornetwork/block_sparse/charge.py
+++ b/tensornetwork/block_sparse/charge.py
@@ -672,22 +672,14 @@ def charge_equal(c1: BaseCharge, c2: BaseCharge) -> bool:
   if c1.dim != c2.dim:
     return False
 
-  res = True      
   if c1._unique_charges is not None and c2._unique_charges is not None:
-    if c1._unique_charges.shape != c2._unique_charges.shape:
-      res = False
-    elif not np.all(c1._unique_charges == c2._unique_charges):
-      res = False
-    elif not np.all(c1.charge_labels == c2.charge_labels):
-      res = False
-    return res
-
-  if c1._charges is not None and c2._charges is not None:
-    if c1._charges.shape != c2._charges.shape:
-      res = False
-    elif not np.all(c1._charges == c2._charges):
-      res = False
-    return res
+    # identical compact storage; different storage can still
+    # describe the same charges (e.g. permuted unique charges)
+    if np.array_equal(c1._unique_charges,
+                      c2._unique_charges) and np.array_equal(
+                          c1._charge_labels, c2._charge_labels):
+      return True
+
   if c1.charges.shape != c2.charges.shape:
     res = False
   elif not np.all(c1.charges == c2.charges):
diff --git a/tensornetwork/block_sparse/index.py b/tensornetwork/block_sparse/index.py
index 6d0aa68..a652741 100644
--- a/tensornetwork/block_sparse/index.py
+++ b/tensornetwork/block_sparse/index.py
@@ -12,7 +12,8 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 import numpy as np
-from tensornetwork.block_sparse.charge import BaseCharge, fuse_charges
+from tensornetwork.block_sparse.charge import (BaseCharge, fuse_charges,
+                                               charge_equal)
 import copy
 from typing import List, Union
 
@@ -55,11 +56,7 @@ class Index:
     if len(other._charges) != len(self._charges):
       return False
     for n in range(len(self._charges)):
-      if not np.array_equal(self._charges[n].unique_charges,
-                            other._charges[n].unique_charges):
-        return False
-      if not np.array_equal(self._charges[n].charge_labels,
-                            other._charges[n].charge_labels):
+      if not charge_equal(self._charges[n], other._charges[n]):
         return False
     if not np.all(np.asarray(self.flow) == np.asarray(other.flow)):
       return False
-- 
2.43.0


From ab230f03dc7a8b196fa36fc948fb4c4e26e8bddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:42 +0000
Subject: [PATCH 29/73] fix: unique and reduce handle compact charges with
 unused unique values

---
 tensornetwork/block_sparse/charge.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/tensornetwork/block_sparse/charge.py b/tensornetwork/block_sparse/charge.py
index 0af6a9f..b6ebba0 100644
--- a/tensornetwork/block_sparse/charge.py
+++ b/tensornetwork/block_sparse/charge.py
@@ -395,7 +395,10 @@ class BaseCharge:
       return tmp
 
     if self._unique_charges is not None:
-      if not return_index:
+      # not every element of `_unique_charges` has to be used by a label
+      counts = np.bincount(
+          self._charge_labels, minlength=self._unique_charges.shape[0])
+      if not return_index and np.all(counts > 0):
         obj.__init__(
             charges=self._unique_charges,
             charge_labels=np.arange(
@@ -408,8 +411,7 @@ class BaseCharge:
           out.append(self._charge_labels)
 
         if return_counts:
-          _, cnts = unique(self._charge_labels, return_counts=True)
-          out.append(cnts)
+          out.append(counts)
         if len(out) > 1:
           return out
         return out[0]
@@ -418,6 +420,8 @@ class BaseCharge:
           return_index=return_index,
           return_inverse=return_inverse,
           return_counts=return_counts)
+      if not any([return_index, return_inverse, return_counts]):
+        tmp = [tmp]
 
       unique_charges = self._unique_charges[tmp[0], :]
       obj.__init__(
@@ -427,7 +431,7 @@ class BaseCharge:
           charge_types=self.charge_types,
           charge_dtype=self.dtype)
       tmp[0] = obj
-      return tmp
+      return tmp if len(tmp) > 1 else obj
 
   def reduce(self,
              target_charges: Union[int, np.ndarray],
@@ -457,7 +461,8 @@ class BaseCharge:
     num_unique = len(label_to_unique)
 
     # construct the map to the reduced charges
-    map_to_reduced = np.full(self.dim, fill_value=-1, dtype=self.label_dtype)
+    map_to_reduced = np.full(
+        self.num_unique, fill_value=-1, dtype=self.label_dtype)
     map_to_reduced[label_to_unique] = np.arange(
         num_unique, dtype=self.label_dtype)
 
-- 
2.43.0


From b6bc3d09e37a584daf4e86ead8ad51c2d52a8de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:07 +0000
Subject: [PATCH 30/73] fix: charge labels do not overflow with more than 32767
 unique charges

---
 tensornetwork/block_sparse/charge.py | 7 ++-----
 tensornetwork/block_sparse/utils.py  | 2 +-
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/tensornetwork/block_sparse/charge.py b/tensornetwork/block_sparse/charge.py
index b6ebba0..8fb803d 100644
--- a/tensornetwork/block_sparse/charge.py
+++ b/tensornetwork/block_sparse/charge.py
@@ -25,7 +25,7 @@ class BaseCharge:
   Attributes:
     * unique_charges: np.ndarray of shape `(m,n)` with `m`
       the number of charge types, and `n` the number of unique charges.
-    * charge_labels: np.ndarray of dtype np.int16. Used for identifying 
+    * charge_labels: np.ndarray of dtype np.int32. Used for identifying 
       charges with integer labels. `unique_charges[:, charge_labels] 
       is the np.ndarray of actual charges.
     * charge_types: A list of `type` objects. Stored the different charge types,
@@ -58,10 +58,7 @@ class BaseCharge:
           "`len(charge_types) = {}` does not match `charges.shape[1]={}`"
           .format(len(charge_types), charges.shape[1]))
     self.num_symmetries = charges.shape[1]
-    if charges.shape[1] < 3:
-      self.label_dtype = np.int16
-    else:
-      self.label_dtype = np.int32
+    self.label_dtype = np.int32
     if charge_types is None:
       charge_types = [type(self)] * self.num_symmetries
     self.charge_types = charge_types
diff --git a/tensornetwork/block_sparse/utils.py b/tensornetwork/block_sparse/utils.py
index 69ceb79..f436ae3 100644
--- a/tensornetwork/block_sparse/utils.py
+++ b/tensornetwork/block_sparse/utils.py
@@ -240,7 +240,7 @@ def unique(array: np.ndarray,
            return_index: bool = False,
            return_inverse: bool = False,
            return_counts: bool = False,
-           label_dtype: Type[np.number] = np.int16) -> Any:
+           label_dtype: Type[np.number] = np.int32) -> Any:
   """
   Compute the unique elements of 1d or 2d `array` along the 
   zero axis of the array.
-- 
2.43.0


From 0d9ae42313271d40a29c129fcb7e34e9452ee6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:15 +0000
Subject: [PATCH 31/73] fix: the hermitian conjugate of a block-sparse matrix
 flips its flows

---
 tensornetwork/block_sparse/blocksparsetensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 771aa1b..071fa66 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -388,7 +388,7 @@ class ChargeArray:
     tensor.__init__(
         data=np.conj(self.data),
         charges=self._charges,
-        flows=self._flows,
+        flows=np.logical_not(self._flows),
         order=order,
         check_consistency=False)
 
-- 
2.43.0


From b946e0b62f157b55bed3ef7a1e6429e290ed02bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:15 +0000
Subject: [PATCH 32/73] fix: the outer product of block-sparse tensors keeps
 the second operand's dtype

---
 tensornetwork/block_sparse/blocksparsetensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 071fa66..b9d06ee 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -903,7 +903,8 @@ def outerproduct(tensor1: BlockSparseTensor,
   order2 = [list(np.asarray(s) + len(tensor1._charges)) for s in tensor2._order]
 
   data = np.zeros(
-      compute_num_nonzero(final_charges, final_flows), dtype=tensor1.dtype)
+      compute_num_nonzero(final_charges, final_flows),
+      dtype=np.result_type(tensor1.dtype, tensor2.dtype))
   if ((len(tensor1.data) > 0) and (len(tensor2.data) > 0)) and (len(data) > 0):
     # find the location of the zero block in the output
     final_block_maps, final_block_charges, _ = _find_diagonal_sparse_blocks(
-- 
2.43.0


From 486e8c52c6cbb24c004a411f1e5cc7130730a62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:26 +0000
Subject: [PATCH 33/73] fix: cached block data are only reused for charges of
 the same type and shape

---
 .../block_sparse/blocksparse_utils.py         | 33 ++++++++++++++-----
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparse_utils.py b/tensornetwork/block_sparse/blocksparse_utils.py
index 6dd129a..a6cb2bd 100644
--- a/tensornetwork/block_sparse/blocksparse_utils.py
+++ b/tensornetwork/block_sparse/blocksparse_utils.py
@@ -355,8 +355,10 @@ def _find_diagonal_sparse_blocks(
   cacher = get_cacher()
   if cacher.do_caching:
     hash_val = _to_string(charges, flows, partition, list(range(len(charges))))
-    if hash_val in cacher.cache:
-      return cacher.cache[hash_val]
+    signature = _cache_signature(charges)
+    cached = cacher.cache.get(hash_val)
+    if cached is not None and cached[3] == signature:
+      return cached[:3]
 
   num_inds = len(charges)
   if partition in (0, num_inds):
@@ -426,8 +428,7 @@ def _find_diagonal_sparse_blocks(
                np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
                charges[0].charge_types, block_qnums.dtype)
   if cacher.do_caching:
-    cacher.cache[hash_val] = (block_maps, obj, block_dims)
-    return cacher.cache[hash_val]
+    cacher.cache[hash_val] = (block_maps, obj, block_dims, signature)
   return block_maps, obj, block_dims
 
 
@@ -463,8 +464,10 @@ def _find_transposed_diagonal_sparse_blocks(
   cacher = get_cacher()
   if cacher.do_caching:
     hash_val = _to_string(charges, flows, tr_partition, order)
-    if hash_val in cacher.cache:
-      return cacher.cache[hash_val]
+    signature = _cache_signature(charges)
+    cached = cacher.cache.get(hash_val)
+    if cached is not None and cached[3] == signature:
+      return cached[:3]
 
   if np.array_equal(order, None) or (np.array_equal(
       np.array(order), np.arange(len(charges)))):
@@ -634,10 +637,24 @@ def _find_transposed_diagonal_sparse_blocks(
                  charges[0].charge_types, block_qnums.dtype)
 
   if cacher.do_caching:
-    cacher.cache[hash_val] = (block_maps, obj, block_dims)
-    return cacher.cache[hash_val]
+    cacher.cache[hash_val] = (block_maps, obj, block_dims, signature)
   return block_maps, obj, block_dims
 
+def _cache_signature(charges: List[BaseCharge]) -> Tuple:
+  """
+  The properties of `charges` that block data depend on and that are not part 
+  of the string computed by `_to_string`. Block data are only taken from the
+  cache if they were computed from charges with the same signature.
+  Args:
+    charges: List of `BaseCharge`, one for each leg of a tensor. 
+  Returns:
+    Tuple: One entry for each leg.
+  """
+  return tuple(
+      (type(c), tuple(c.charge_types), c.charges.shape, c.dtype)
+      for c in charges)
+
+
 def _to_string(charges: List[BaseCharge], flows: Union[np.ndarray, List],
                tr_partition: int, order: List[int]) -> str:
   """
-- 
2.43.0


From de2bf69ad4f22330fc94f6ff896a33c689bb6bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:07 +0000
Subject: [PATCH 34/73] fix: symmetric decompositions handle legs of dimension
 one at the pivot

---
 .../backends/symmetric/decompositions.py      | 61 +++++++++++++------
 1 file changed, 41 insertions(+), 20 deletions(-)

diff --git a/tensornetwork/backends/symmetric/decompositions.py b/tensornetwork/backends/symmetric/decompositions.py
index 3bd437a..ff0fee3 100644
--- a/tensornetwork/backends/symmetric/decompositions.py
+++ b/tensornetwork/backends/symmetric/decompositions.py
@@ -14,7 +14,7 @@
 """Tensor Decomposition Implementations."""
 import numpy as np
 import warnings
-from typing import Optional, Any, Tuple
+from typing import List, Optional, Any, Sequence, Tuple
 from tensornetwork.block_sparse.blocksparse_utils import (
     _find_transposed_diagonal_sparse_blocks)
 from tensornetwork.block_sparse.utils import get_real_dtype
@@ -24,6 +24,35 @@ from tensornetwork.block_sparse.blocksparsetensor import (BlockSparseTensor,
 Tensor = Any
 
 
+def _regroup(tensor: BlockSparseTensor,
+             num_legs: Sequence[int]) -> BlockSparseTensor:
+  """
+  Regroup the elementary legs of `tensor`, in their current order, into axes
+  consisting of `num_legs` legs each. Other than reshaping to integer
+  dimensions this is unambiguous for legs of dimension one.
+  """
+  flat_order = tensor.flat_order
+  ends = np.cumsum(num_legs)
+  return BlockSparseTensor(
+      tensor.data,
+      charges=tensor._charges,
+      flows=tensor._flows,
+      order=[
+          list(flat_order[end - n:end]) for end, n in zip(ends, num_legs)
+      ],
+      check_consistency=False)
+
+
+def _num_legs(tensor: BlockSparseTensor,
+              pivot_axis: int) -> Tuple[List[int], List[int]]:
+  """
+  The number of elementary legs of each axis to the left and to the right 
+  of `pivot_axis`.
+  """
+  num_legs = [len(o) for o in tensor._order]
+  return num_legs[:pivot_axis], num_legs[pivot_axis:]
+
+
 def svd(
     bt,
     tensor: BlockSparseTensor,
@@ -36,10 +65,8 @@ def svd(
   See tensornetwork.backends.tensorflow.decompositions for details.
   """
 
-  left_dims = tensor.shape[:pivot_axis]
-  right_dims = tensor.shape[pivot_axis:]
-
-  matrix = bt.reshape(tensor, [np.prod(left_dims), np.prod(right_dims)])
+  left_legs, right_legs = _num_legs(tensor, pivot_axis)
+  matrix = _regroup(tensor, [sum(left_legs), sum(right_legs)])
 
   flat_charges = matrix._charges
   flat_flows = matrix._flows
@@ -211,9 +238,7 @@ def svd(
       flows=flows_v,
       order=order_v,
       check_consistency=False)
-  left_shape = left_dims + (S.shape[0],)
-  right_shape = (S.shape[0],) + right_dims
-  return U.reshape(left_shape), S, V.reshape(right_shape), Sdisc
+  return _regroup(U, left_legs + [1]), S, _regroup(V, [1] + right_legs), Sdisc
 
 
 def qr(bt, tensor: BlockSparseTensor, pivot_axis: int) -> Tuple[Tensor, Tensor]:
@@ -221,13 +246,11 @@ def qr(bt, tensor: BlockSparseTensor, pivot_axis: int) -> Tuple[Tensor, Tensor]:
 
   See tensornetwork.backends.tensorflow.decompositions for details.
   """
-  left_dims = tensor.shape[:pivot_axis]
-  right_dims = tensor.shape[pivot_axis:]
-  tensor = bt.reshape(tensor, [np.prod(left_dims), np.prod(right_dims)])
+  left_legs, right_legs = _num_legs(tensor, pivot_axis)
+  tensor = _regroup(tensor, [sum(left_legs), sum(right_legs)])
   q, r = bt.qr(tensor)
-  center_dim = q.shape[1]
-  q = bt.reshape(q, list(left_dims) + [center_dim])
-  r = bt.reshape(r, [center_dim] + list(right_dims))
+  q = _regroup(q, left_legs + [1])
+  r = _regroup(r, [1] + right_legs)
   return q, r
 
 
@@ -236,13 +259,11 @@ def rq(bt, tensor: BlockSparseTensor, pivot_axis: int) -> Tuple[Tensor, Tensor]:
 
   See tensornetwork.backends.tensorflow.decompositions for details.
   """
-  left_dims = tensor.shape[:pivot_axis]
-  right_dims = tensor.shape[pivot_axis:]
-  tensor = bt.reshape(tensor, [np.prod(left_dims), np.prod(right_dims)])
+  left_legs, right_legs = _num_legs(tensor, pivot_axis)
+  tensor = _regroup(tensor, [sum(left_legs), sum(right_legs)])
   q, r = bt.qr(bt.conj(bt.transpose(tensor, (1, 0))))
   r, q = bt.conj(bt.transpose(r, (1, 0))), bt.conj(bt.transpose(
       q, (1, 0)))  #M=r*q at this point
-  center_dim = r.shape[1]
-  r = bt.reshape(r, list(left_dims) + [center_dim])
-  q = bt.reshape(q, [center_dim] + list(right_dims))
+  r = _regroup(r, left_legs + [1])
+  q = _regroup(q, [1] + right_legs)
   return r, q
-- 
2.43.0


From d9ab4ad202880a7d8718bc6e15bb0e33362c9eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:26 +0000
Subject: [PATCH 35/73] fix: symmetric truncated svd never keeps padded zeros
 in place of singular values

---
 tensornetwork/backends/symmetric/decompositions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensornetwork/backends/symmetric/decompositions.py b/tensornetwork/backends/symmetric/decompositions.py
index ff0fee3..e7fb3ec 100644
--- a/tensornetwork/backends/symmetric/decompositions.py
+++ b/tensornetwork/backends/symmetric/decompositions.py
@@ -110,6 +110,9 @@ def svd(
     extended_flat_singvals = np.ravel(extended_singvals)
     #sort singular values
     inds = np.argsort(extended_flat_singvals, kind='stable')
+    # the padded entries are not singular values
+    padded = np.arange(max_D)[:, None] >= np.asarray(orig_block_size)[None, :]
+    inds = inds[np.logical_not(np.ravel(padded)[inds])]
     discarded_inds = np.zeros(0, dtype=SIZE_T)
     if max_truncation_error is not None:
       if relative and (len(singvals) > 0):
-- 
2.43.0


From 6001eaee3eae938319d38580b5e28927dc9cb976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:02 +0000
Subject: [PATCH 36/73] fix: symmetric svd with max_singular_values=0 keeps no
 singular value

---
 tensornetwork/backends/symmetric/decompositions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/backends/symmetric/decompositions.py b/tensornetwork/backends/symmetric/decompositions.py
index e7fb3ec..27ae52c 100644
--- a/tensornetwork/backends/symmetric/decompositions.py
+++ b/tensornetwork/backends/symmetric/decompositions.py
@@ -134,9 +134,9 @@ def svd(
       if max_singular_values > orig_num_singvals:
         max_singular_values = orig_num_singvals
       if max_singular_values < len(inds):
-        discarded_inds = np.append(discarded_inds,
-                                   inds[:(-1) * max_singular_values])
-        inds = inds[(-1) * max_singular_values::]
+        num_discarded = len(inds) - max_singular_values
+        discarded_inds = np.append(discarded_inds, inds[:num_discarded])
+        inds = inds[num_discarded:]
 
     if len(inds) == 0:
       #special case of truncation to 0 dimension;
-- 
2.43.0


From 0c2729ff6b00843ebfcb89ff057e9035d5fec015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:13 +0000
Subject: [PATCH 37/73] fix: initialisers without a backend resolve the default
 backend's name

node_linalg's initialisers and ones_like/zeros_like looked methods up on the
name of the default backend instead of the backend, and *_like of an array
used a TensorFlow-only shape query.
---
 tensornetwork/linalg/initialization.py | 8 +++-----
 tensornetwork/linalg/node_linalg.py    | 5 ++---
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/tensornetwork/linalg/initialization.py b/tensornetwork/linalg/initialization.py
index a0e4340..e33f9af 100644
--- a/tensornetwork/linalg/initialization.py
+++ b/tensornetwork/linalg/initialization.py
@@ -116,8 +116,7 @@ def ones_like(tensor: Union[Any],
      backend(optional): The backend or its name."""
   if backend is None:
     backend = backend_contextmanager.get_default_backend()
-  else:
-    backend = backend_contextmanager.backend_factory.get_backend(backend)
+  backend = backends.backend_factory.get_backend(backend)
   if isinstance(tensor, Tensor):
     the_tensor = initialize_tensor("ones", tensor.shape,
                                    backend=tensor.backend, dtype=tensor.dtype)
@@ -128,7 +127,7 @@ def ones_like(tensor: Union[Any],
       error = "Input to zeros_like has invalid type causing " \
               "error massage: \n" + str(e)
       raise TypeError(error) from e
-    the_tensor = initialize_tensor("ones", tensor.get_shape().as_list(),
+    the_tensor = initialize_tensor("ones", backend.shape_tuple(tensor),
                                    backend=backend, dtype=dtype)
   return the_tensor
 
@@ -144,8 +143,7 @@ def zeros_like(tensor: Union[Any],
      backend(optional): The backend or its name."""
   if backend is None:
     backend = backend_contextmanager.get_default_backend()
-  else:
-    backend = backend_contextmanager.backend_factory.get_backend(backend)
+  backend = backends.backend_factory.get_backend(backend)
   if isinstance(tensor, Tensor):
     the_tensor = initialize_tensor("zeros", tensor.shape,
                                    backend=tensor.backend, dtype=tensor.dtype)
diff --git a/tensornetwork/linalg/node_linalg.py b/tensornetwork/linalg/node_linalg.py
index 67e414c..3a3527a 100644
--- a/tensornetwork/linalg/node_linalg.py
+++ b/tensornetwork/linalg/node_linalg.py
@@ -55,9 +55,8 @@ def initialize_node(fname: Text,
           axis of data.
   """
   if backend is None:
-    backend_obj = backend_contextmanager.get_default_backend()
-  else:
-    backend_obj = backends.backend_factory.get_backend(backend)
+    backend = backend_contextmanager.get_default_backend()
+  backend_obj = backends.backend_factory.get_backend(backend)
   func = getattr(backend_obj, fname)
   data = func(*fargs, **fkwargs)
   node = Node(data, name=name, axis_names=axis_names, backend=backend)
-- 
2.43.0


From 28b5fd387588ea2d6413900e736f9764669821af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:13 +0000
Subject: [PATCH 38/73] fix: ones_like and zeros_like of a Tensor honour the
 requested dtype

---
 tensornetwork/linalg/initialization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/linalg/initialization.py b/tensornetwork/linalg/initialization.py
index e33f9af..8c4dfe0 100644
--- a/tensornetwork/linalg/initialization.py
+++ b/tensornetwork/linalg/initialization.py
@@ -119,7 +119,8 @@ def ones_like(tensor: Union[Any],
   backend = backends.backend_factory.get_backend(backend)
   if isinstance(tensor, Tensor):
     the_tensor = initialize_tensor("ones", tensor.shape,
-                                   backend=tensor.backend, dtype=tensor.dtype)
+                                   backend=tensor.backend,
+                                   dtype=tensor.dtype if dtype is None else dtype)
   else:
     try:
       tensor = backend.convert_to_tensor(tensor)
@@ -146,7 +147,8 @@ def zeros_like(tensor: Union[Any],
   backend = backends.backend_factory.get_backend(backend)
   if isinstance(tensor, Tensor):
     the_tensor = initialize_tensor("zeros", tensor.shape,
-                                   backend=tensor.backend, dtype=tensor.dtype)
+                                   backend=tensor.backend,
+                                   dtype=tensor.dtype if dtype is None else dtype)
   else:
     try:
       tensor = backend.convert_to_tensor(tensor)
-- 
2.43.0


From 1c7e9ee09cffdc387d2c9dfb6ca08987a0c3b083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:13 +0000
Subject: [PATCH 39/73] fix: greedy_cost_solve never contracts a tensor with
 itself

The additive penalty on the diagonal vanishes when all costs are (nearly)
zero, so networks of scalars or of trivial bonds got invalid sequences.
---
 tensornetwork/contractors/custom_path_solvers/pathsolvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/contractors/custom_path_solvers/pathsolvers.py b/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
index 9a96bdc..35767e9 100644
--- a/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
+++ b/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
@@ -117,7 +117,7 @@ def greedy_cost_solve(log_adj_in: np.ndarray):
     # penalize trivial contractions and self-contractions
     triv_conts = (log_adj < tol)
     trimmed_costs = single_cost + np.max(single_cost.flatten()) * triv_conts
-    trimmed_costs = trimmed_costs + np.max(trimmed_costs.flatten()) * np.eye(N)
+    np.fill_diagonal(trimmed_costs, np.inf)
 
     # find best contraction
     tensors_to_contract = np.divmod(np.argmin(trimmed_costs), N)
-- 
2.43.0


From 7fe865a2a43352370e401d8db3a03f8382c2904a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:13 +0000
Subject: [PATCH 40/73] fix: path solvers accept a network of a single tensor

---
 .../contractors/custom_path_solvers/pathsolvers.py         | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tensornetwork/contractors/custom_path_solvers/pathsolvers.py b/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
index 35767e9..ccb6de1 100644
--- a/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
+++ b/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
@@ -85,6 +85,8 @@ def greedy_size_solve(log_adj_in: np.ndarray):
     else:
       costs = costs + np.log10(1 + 10**(single_cost[i, j] - costs))
 
+  if costs is None:  # nothing to contract
+    costs = float('-inf')
   return orders, costs
 
 
@@ -140,6 +142,8 @@ def greedy_cost_solve(log_adj_in: np.ndarray):
     else:
       costs = costs + np.log10(1 + 10**(single_cost[i, j] - costs))
 
+  if costs is None:  # nothing to contract
+    costs = float('-inf')
   return orders, costs
 
 
@@ -160,6 +164,9 @@ def full_solve_complete(log_adj: np.ndarray,
     bool: specifies if contraction order is guaranteed optimal.
   """
   tol = 1e-6  # tolerance for float comparison
+  if log_adj.shape[0] < 2:  # nothing to contract
+    return np.zeros([2, 0], dtype=int), float('-inf'), True
+
   # start by trying both greedy algorithms
   order0, cost0 = greedy_size_solve(log_adj)
   order1, cost1 = greedy_cost_solve(log_adj)
-- 
2.43.0


From a1c97ae0f85dda547a6e528d56b01e4ced9cc45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:13 +0000
Subject: [PATCH 41/73] fix: ncon_cost_check does not use the removed np.float

---
 tensornetwork/contractors/custom_path_solvers/nconinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/contractors/custom_path_solvers/nconinterface.py b/tensornetwork/contractors/custom_path_solvers/nconinterface.py
index 1ddd52d..f63975c 100644
--- a/tensornetwork/contractors/custom_path_solvers/nconinterface.py
+++ b/tensornetwork/contractors/custom_path_solvers/nconinterface.py
@@ -140,7 +140,7 @@ def ncon_cost_check(tensors: List[np.ndarray],
     float: the cost of the network contraction, given as log10(total_FLOPS).
   """
 
-  total_cost = np.float('-inf')
+  total_cost = float('-inf')
   N = len(tensors)
   tensor_dims = [np.array(np.log10(ele.shape)) for ele in tensors]
   connect_list = [np.array(ele) for ele in labels]
-- 
2.43.0


From 0160cb63a30e9dedded49f6881c3b1caef4a9692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:21 +0000
Subject: [PATCH 42/73] fix: numpy eigsh_lanczos does not overwrite the initial
 state

---
 tensornetwork/backends/numpy/numpy_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index 125bd8d..8ea8832 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -484,7 +484,7 @@ class NumPyBackend(abstract_backend.AbstractBackend):
 
     vector_n = initial_state
     Z = self.norm(vector_n)
-    vector_n /= Z
+    vector_n = vector_n / Z
     norms_vector_n = []
     diag_elements = []
     krylov_vecs = []
-- 
2.43.0


From 98f71e37df417caf6be59efe0c72286a01b54b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:21 +0000
Subject: [PATCH 43/73] fix: numpy eigsh_lanczos does not modify the result of
 the matvec in place

---
 tensornetwork/backends/numpy/numpy_backend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index 8ea8832..2893a7f 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -517,10 +517,10 @@ class NumPyBackend(abstract_backend.AbstractBackend):
         first = False
         eigvalsold = eigvals[0:numeig]
       if it > 0:
-        A_vector_n -= (krylov_vecs[-1] * diag_elements[-1])
-        A_vector_n -= (krylov_vecs[-2] * norms_vector_n[-1])
+        A_vector_n = A_vector_n - (krylov_vecs[-1] * diag_elements[-1])
+        A_vector_n = A_vector_n - (krylov_vecs[-2] * norms_vector_n[-1])
       else:
-        A_vector_n -= (krylov_vecs[-1] * diag_elements[-1])
+        A_vector_n = A_vector_n - (krylov_vecs[-1] * diag_elements[-1])
       vector_n = A_vector_n
 
     A_tridiag = np.diag(diag_elements) + np.diag(
-- 
2.43.0


From 703fd52940568486ee7ded892ac6b023b0c5bfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:12 +0000
Subject: [PATCH 44/73] fix: gmres accepts num_krylov_vectors=None, the default
 of linalg.krylov.gmres

---
 tensornetwork/backends/abstract_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/backends/abstract_backend.py b/tensornetwork/backends/abstract_backend.py
index b9f3993..8d1ba87 100644
--- a/tensornetwork/backends/abstract_backend.py
+++ b/tensornetwork/backends/abstract_backend.py
@@ -591,7 +591,7 @@ class AbstractBackend:
 
       x0 = self.reshape(x0, (N,))
 
-    if num_krylov_vectors > N:
+    if num_krylov_vectors is None or num_krylov_vectors > N:
       num_krylov_vectors = N
 
     if tol < 0:
-- 
2.43.0


From 097c907d802df1055840c394929eff0a08b9f4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:12 +0000
Subject: [PATCH 45/73] fix: symmetric eigs keeps the leg grouping of the
 initial state

---
 tensornetwork/backends/symmetric/symmetric_backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensornetwork/backends/symmetric/symmetric_backend.py b/tensornetwork/backends/symmetric/symmetric_backend.py
index 8cedc6d..b28c3b4 100644
--- a/tensornetwork/backends/symmetric/symmetric_backend.py
+++ b/tensornetwork/backends/symmetric/symmetric_backend.py
@@ -251,6 +251,7 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
         numpy.empty(0, dtype=initial_state.dtype),
         initial_state._charges,
         initial_state._flows,
+        initial_state._order,
         check_consistency=False)
     lop = sp.sparse.linalg.LinearOperator(
         dtype=initial_state.dtype, shape=(dim, dim), matvec=matvec)
@@ -279,6 +280,7 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
             U[:, n],
             initial_state._charges,
             initial_state._flows,
+            initial_state._order,
             check_consistency=False) for n in range(numeig)
     ]
 
-- 
2.43.0


From 3dc274c9dedc0cbcf82f77d082737e76b1c31126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:12 +0000
Subject: [PATCH 46/73] fix: symmetric gmres keeps the leg grouping of the
 start vector

---
 tensornetwork/backends/symmetric/symmetric_backend.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensornetwork/backends/symmetric/symmetric_backend.py b/tensornetwork/backends/symmetric/symmetric_backend.py
index b28c3b4..afd3bdd 100644
--- a/tensornetwork/backends/symmetric/symmetric_backend.py
+++ b/tensornetwork/backends/symmetric/symmetric_backend.py
@@ -579,6 +579,7 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
         numpy.empty(0, dtype=x0.dtype),
         x0._charges,
         x0._flows,
+        x0._order,
         check_consistency=False)
     def matvec(vector):
       tmp.data = vector
-- 
2.43.0


From 0d4591353dca6053b29e4cb355509e53ec5c94f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:12 +0000
Subject: [PATCH 47/73] fix: compare_shapes compares legs in the order of the
 tensor's axes

---
 tensornetwork/block_sparse/blocksparsetensor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index b9d06ee..d1466e6 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -458,9 +458,10 @@ def compare_shapes(tensor1: ChargeArray, tensor2: ChargeArray) -> bool:
     return False
   if not all(
       charge_equal(c1, c2)
-      for c1, c2 in zip(tensor1._charges, tensor2._charges)):
+      for c1, c2 in zip(tensor1.flat_charges, tensor2.flat_charges)):
     return False
-  if not all(f1 == f2 for f1, f2 in zip(tensor1._flows, tensor2._flows)):
+  if not all(f1 == f2
+             for f1, f2 in zip(tensor1.flat_flows, tensor2.flat_flows)):
     return False
   return True
 
-- 
2.43.0


From 6be6e268f4df3bfa462c851e0369d605275e9de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:55 +0000
Subject: [PATCH 48/73] fix: eliminate_identities resolves chains of connected
 identities

---
 tensornetwork/quantum/quantum.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tensornetwork/quantum/quantum.py b/tensornetwork/quantum/quantum.py
index 1dc7981..59c4883 100644
--- a/tensornetwork/quantum/quantum.py
+++ b/tensornetwork/quantum/quantum.py
@@ -140,6 +140,13 @@ def eliminate_identities(nodes: Collection[AbstractNode]) -> Tuple[dict, dict]:
         dangling_edges_dict[e] = e
       nodes_dict[n] = n
 
+  # With chains of identities, the replacement of a dangling edge may itself
+  # have been replaced by a later elimination.
+  for e, new_edge in dangling_edges_dict.items():
+    while dangling_edges_dict.get(new_edge, new_edge) is not new_edge:
+      new_edge = dangling_edges_dict[new_edge]
+    dangling_edges_dict[e] = new_edge
+
   return nodes_dict, dangling_edges_dict
 
 
-- 
2.43.0


From d25dc5c4b5e5da6f8718f62e772a1ef2531a6bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:19 +0000
Subject: [PATCH 49/73] fix: MPO layers use the exact integer root as leg
 dimension

math.ceil of the floating point root is one too large when the root of a
perfect power is slightly above an integer (e.g. 3125**(1/5)).
---
 tensornetwork/tn_keras/conv2d_mpo.py | 5 ++---
 tensornetwork/tn_keras/mpo.py        | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/tensornetwork/tn_keras/conv2d_mpo.py b/tensornetwork/tn_keras/conv2d_mpo.py
index 2382833..3c5d1da 100644
--- a/tensornetwork/tn_keras/conv2d_mpo.py
+++ b/tensornetwork/tn_keras/conv2d_mpo.py
@@ -7,7 +7,6 @@ from tensorflow.python.keras.utils import conv_utils #pylint: disable=no-name-in
 from typing import List, Tuple, Text, Optional, Union
 import numpy as np
 import tensornetwork as tn
-import math
 
 # pytype: disable=module-attr
 @tf.keras.utils.register_keras_serializable(package='tensornetwork')# pylint: disable=no-member
@@ -161,8 +160,8 @@ class Conv2DMPO(Layer):
 
     super().build(input_shape)
 
-    in_leg_dim = math.ceil(channels**(1. / self.num_nodes))
-    out_leg_dim = math.ceil(self.filters**(1. / self.num_nodes))
+    in_leg_dim = round(channels**(1. / self.num_nodes))
+    out_leg_dim = round(self.filters**(1. / self.num_nodes))
 
     self.nodes.append(
         self.add_weight(name='end_node_first',
diff --git a/tensornetwork/tn_keras/mpo.py b/tensornetwork/tn_keras/mpo.py
index a7247bb..cbf579b 100644
--- a/tensornetwork/tn_keras/mpo.py
+++ b/tensornetwork/tn_keras/mpo.py
@@ -7,7 +7,6 @@ from typing import List, Optional, Text, Tuple
 import tensornetwork as tn
 from tensornetwork.network_components import Node
 import numpy as np
-import math
 
 
 # pytype: disable=module-attr
@@ -108,8 +107,8 @@ class DenseMPO(Layer):
 
     super().build(input_shape)
 
-    self.in_leg_dim = math.ceil(input_dim**(1. / self.num_nodes))
-    self.out_leg_dim = math.ceil(self.output_dim**(1. / self.num_nodes))
+    self.in_leg_dim = round(input_dim**(1. / self.num_nodes))
+    self.out_leg_dim = round(self.output_dim**(1. / self.num_nodes))
 
     self.nodes.append(
         self.add_weight(name='end_node_first',
-- 
2.43.0


From 1293a3a66acd6524d35226fb8ab73d8b22f65372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:19 +0000
Subject: [PATCH 50/73] fix: Conv2DMPO adds the bias along the channel axis for
 channels_first

---
 tensornetwork/tn_keras/conv2d_mpo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/tn_keras/conv2d_mpo.py b/tensornetwork/tn_keras/conv2d_mpo.py
index 3c5d1da..bdc12a2 100644
--- a/tensornetwork/tn_keras/conv2d_mpo.py
+++ b/tensornetwork/tn_keras/conv2d_mpo.py
@@ -218,7 +218,10 @@ class Conv2DMPO(Layer):
                           dilations=self.dilation_rate)
 
     if self.use_bias:
-      bias = tf.reshape(self.bias_var, (1, self.filters,))
+      if self.data_format == 'channels_first':
+        bias = tf.reshape(self.bias_var, (1, self.filters, 1, 1))
+      else:
+        bias = tf.reshape(self.bias_var, (1, self.filters,))
       result += bias
 
     if self.activation is not None:
-- 
2.43.0


From 909f455d410b1f59091b5cfd985426a9edb0595f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:05 +0000
Subject: [PATCH 51/73] fix: Node.reorder_edges refuses repeated edges before
 it changes anything

---
 tensornetwork/network_components.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index c5f1164..ba8c5f4 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -230,6 +230,9 @@ class AbstractNode(ABC):
       raise ValueError("Given edge order does not match expected edges. "
                        "Missing edges that belong to node found: "
                        "{}".format(missing_edges))
+    if len(edge_order) != len(self.edges):
+      raise ValueError("Given edge order does not match expected edges. "
+                       "Some edge appears more than once.")
     for edge in edge_order:
       if edge.node1 == edge.node2:
         raise ValueError("Edge reordering does not support trace edges. "
-- 
2.43.0


From 58265928b5c2b9a13b2f44ff5da592ee48bf4ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:17 +0000
Subject: [PATCH 52/73] fix: an initial state is accepted for the transfer
 matrix eigenvectors of an infinite MPS

---
 tensornetwork/matrixproductstates/infinite_mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/matrixproductstates/infinite_mps.py b/tensornetwork/matrixproductstates/infinite_mps.py
index ff7d4ed..3b396da 100644
--- a/tensornetwork/matrixproductstates/infinite_mps.py
+++ b/tensornetwork/matrixproductstates/infinite_mps.py
@@ -131,7 +131,7 @@ class InfiniteMPS(BaseMPS):
           direction, self.backend.reshape(vector, (D, D)))
       return self.backend.reshape(result, (D * D,))
 
-    if not initial_state:
+    if initial_state is None:
       initial_state = self.backend.randn((self.bond_dimensions[0]**2,),
                                          dtype=self.dtype)
     else:
-- 
2.43.0


From e47bd464b40fb505837d578010adcd2739a29621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:17 +0000
Subject: [PATCH 53/73] fix: block-sparse trace pairs the elementary legs of
 fused axes in their order

---
 tensornetwork/block_sparse/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/block_sparse/linalg.py b/tensornetwork/block_sparse/linalg.py
index da2bf6d..f3f7689 100644
--- a/tensornetwork/block_sparse/linalg.py
+++ b/tensornetwork/block_sparse/linalg.py
@@ -626,8 +626,8 @@ def trace(tensor: BlockSparseTensor,
     _, _, labels1 = np.intersect1d(
         tensor._order[axes[1]], flatten(out._order), return_indices=True)
 
-    a0 = list(labels0[np.argsort(tensor._order[axes[0]])])
-    a1 = list(labels1[np.argsort(tensor._order[axes[1]])])
+    a0 = list(labels0[np.argsort(np.argsort(tensor._order[axes[0]]))])
+    a1 = list(labels1[np.argsort(np.argsort(tensor._order[axes[1]]))])
 
     while len(a0) > 0:
       i = a0.pop(0)
-- 
2.43.0


From 56fdebfdbbc32e5ad7d27e016583205c0387fd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:17 +0000
Subject: [PATCH 54/73] fix: diag accepts a ChargeArray with a fused leg

---
 tensornetwork/block_sparse/linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/linalg.py b/tensornetwork/block_sparse/linalg.py
index f3f7689..0583812 100644
--- a/tensornetwork/block_sparse/linalg.py
+++ b/tensornetwork/block_sparse/linalg.py
@@ -59,6 +59,7 @@ def diag(tensor: ChargeArray) -> Any:
       raise ValueError(
           "`diag` currently only implemented for `ChargeArray` with ndim=1, "
           "found `ndim={}`".format(tensor.ndim))
+    tensor = tensor.contiguous()
     flat_charges = tensor._charges + tensor._charges
     flat_flows = list(tensor._flows) + list(np.logical_not(tensor._flows))
     flat_order = list(tensor.flat_order) + list(
@@ -79,7 +80,7 @@ def diag(tensor: ChargeArray) -> Any:
         tensor._order[0],
         list(np.asarray(tensor._order[0]) + len(tensor._charges))
     ]
-    new_charges = [tensor._charges[0].copy(), tensor._charges[0].copy()]
+    new_charges = [c.copy() for c in flat_charges]
     return BlockSparseTensor(
         data,
         charges=new_charges,
-- 
2.43.0


From 15a3a017931f3353190c43b4bf5659e85b9bd1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:17 +0000
Subject: [PATCH 55/73] fix: ChargeArray.random draws within the given
 boundaries

---
 tensornetwork/block_sparse/blocksparsetensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index d1466e6..95af868 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -104,7 +104,7 @@ class ChargeArray:
 
     data, charges, flows, order = _data_initializer(
         _random, lambda charges, flows: np.prod([c.dim for c in charges]),
-        indices, dtype=dtype)
+        indices, dtype=dtype, boundaries=boundaries)
     return cls(data=data, charges=charges, flows=flows, order=order)
 
   @property
-- 
2.43.0


From c1050375aa57f010dd86332bd3c6c70d2c8a242b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:17 +0000
Subject: [PATCH 56/73] fix: size and todense of a block-sparse scalar

---
 tensornetwork/block_sparse/blocksparsetensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 95af868..b244cb9 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -139,7 +139,7 @@ class ChargeArray:
     Returns:
       int: The total number of elements.
     """
-    return reduce(mul, [self._charges[n].dim for s in self._order for n in s])
+    return reduce(mul, [self._charges[n].dim for s in self._order for n in s], 1)
 
   @property
   def charges(self) -> List[List[BaseCharge]]:
@@ -579,7 +579,7 @@ class BlockSparseTensor(ChargeArray):
     
     """
     if self.ndim == 0:
-      return self.data
+      return np.reshape(self.data, ())
     out = np.asarray(np.zeros(self.shape, dtype=self.dtype).flat)
 
     out[np.nonzero(
-- 
2.43.0


From 07d8d5763ba72e016851ac7adb14a92f4d6577c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:17 +0000
Subject: [PATCH 57/73] fix: outer product of two block-sparse scalars

---
 tensornetwork/block_sparse/blocksparsetensor.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index b244cb9..3d54e8c 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -902,6 +902,13 @@ def outerproduct(tensor1: BlockSparseTensor,
   final_charges = tensor1._charges + tensor2._charges
   final_flows = list(tensor1._flows) + list(tensor2._flows)
   order2 = [list(np.asarray(s) + len(tensor1._charges)) for s in tensor2._order]
+  if len(final_charges) == 0:  # both tensors are scalars
+    return BlockSparseTensor(
+        tensor1.data * tensor2.data,
+        charges=[],
+        flows=[],
+        order=[],
+        check_consistency=False)
 
   data = np.zeros(
       compute_num_nonzero(final_charges, final_flows),
-- 
2.43.0


From 5966b39c655d9efdd20e0bee6bb0cf2e529339a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:17 +0000
Subject: [PATCH 58/73] fix: reshaping a one-element block-sparse tensor to a
 scalar drops its charges

---
 tensornetwork/block_sparse/blocksparsetensor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 3d54e8c..1e7a362 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -259,6 +259,12 @@ class ChargeArray:
       raise ValueError("A tensor with {} elements cannot be "
                        "reshaped into a tensor with {} elements".format(
                            np.prod(self.shape), np.prod(new_shape)))
+    if len(new_shape) == 0:  # all elementary dimensions are 1
+      data = self.data if len(self.data) > 0 else np.zeros(1, dtype=self.dtype)
+      result = self.__new__(type(self))
+      result.__init__(
+          data=data, charges=[], flows=[], order=[], check_consistency=False)
+      return result
     flat_dims = np.asarray(
         [self._charges[n].dim for o in self._order for n in o])
 
-- 
2.43.0


From 4c0ac5ef2ffedcab2db4cc069af8336311db59e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:17 +0000
Subject: [PATCH 59/73] fix: the symmetric backend converts Python scalars to
 tensors

---
 tensornetwork/backends/symmetric/symmetric_backend.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/backends/symmetric/symmetric_backend.py b/tensornetwork/backends/symmetric/symmetric_backend.py
index afd3bdd..0322c5f 100644
--- a/tensornetwork/backends/symmetric/symmetric_backend.py
+++ b/tensornetwork/backends/symmetric/symmetric_backend.py
@@ -101,7 +101,11 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
   def convert_to_tensor(self, tensor: Tensor) -> Tensor:
     if numpy.isscalar(tensor):
       tensor = BlockSparseTensor(
-          data=tensor, charges=[], flows=[], order=[], check_consistency=False)
+          data=numpy.asarray(tensor),
+          charges=[],
+          flows=[],
+          order=[],
+          check_consistency=False)
 
     if not isinstance(tensor, ChargeArray):
       raise TypeError(
-- 
2.43.0


From 6b9ccb9841431650955ee0e65ebb23df7160ceef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:17 +0000
Subject: [PATCH 60/73] fix: a seed of zero seeds the random number generator

---
 tensornetwork/backends/jax/jax_backend.py               | 4 ++--
 tensornetwork/backends/numpy/numpy_backend.py           | 4 ++--
 tensornetwork/backends/pytorch/pytorch_backend.py       | 4 ++--
 tensornetwork/backends/symmetric/symmetric_backend.py   | 4 ++--
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/tensornetwork/backends/jax/jax_backend.py b/tensornetwork/backends/jax/jax_backend.py
index f54283a..d517a9a 100644
--- a/tensornetwork/backends/jax/jax_backend.py
+++ b/tensornetwork/backends/jax/jax_backend.py
@@ -163,7 +163,7 @@ class JaxBackend(abstract_backend.AbstractBackend):
             shape: Tuple[int, ...],
             dtype: Optional[np.dtype] = None,
             seed: Optional[int] = None) -> Tensor:
-    if not seed:
+    if seed is None:
       seed = np.random.randint(0, 2**63)
     key = libjax.random.PRNGKey(seed)
 
@@ -194,7 +194,7 @@ class JaxBackend(abstract_backend.AbstractBackend):
                      boundaries: Optional[Tuple[float, float]] = (0.0, 1.0),
                      dtype: Optional[np.dtype] = None,
                      seed: Optional[int] = None) -> Tensor:
-    if not seed:
+    if seed is None:
       seed = np.random.randint(0, 2**63)
     key = libjax.random.PRNGKey(seed)
 
diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index 2893a7f..df7eb67 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -136,7 +136,7 @@ class NumPyBackend(abstract_backend.AbstractBackend):
             dtype: Optional[np.dtype] = None,
             seed: Optional[int] = None) -> Tensor:
 
-    if seed:
+    if seed is not None:
       np.random.seed(seed)
     dtype = dtype if dtype is not None else np.float64
     if ((np.dtype(dtype) is np.dtype(np.complex128)) or
@@ -151,7 +151,7 @@ class NumPyBackend(abstract_backend.AbstractBackend):
                      dtype: Optional[np.dtype] = None,
                      seed: Optional[int] = None) -> Tensor:
 
-    if seed:
+    if seed is not None:
       np.random.seed(seed)
     dtype = dtype if dtype is not None else np.float64
     if ((np.dtype(dtype) is np.dtype(np.complex128)) or
diff --git a/tensornetwork/backends/pytorch/pytorch_backend.py b/tensornetwork/backends/pytorch/pytorch_backend.py
index e0b1dc7..c3aefd2 100644
--- a/tensornetwork/backends/pytorch/pytorch_backend.py
+++ b/tensornetwork/backends/pytorch/pytorch_backend.py
@@ -152,7 +152,7 @@ class PyTorchBackend(abstract_backend.AbstractBackend):
             shape: Tuple[int, ...],
             dtype: Optional[Any] = None,
             seed: Optional[int] = None) -> Tensor:
-    if seed:
+    if seed is not None:
       torchlib.manual_seed(seed)
     dtype = dtype if dtype is not None else torchlib.float64
     return torchlib.randn(shape, dtype=dtype)
@@ -162,7 +162,7 @@ class PyTorchBackend(abstract_backend.AbstractBackend):
                      boundaries: Optional[Tuple[float, float]] = (0.0, 1.0),
                      dtype: Optional[Any] = None,
                      seed: Optional[int] = None) -> Tensor:
-    if seed:
+    if seed is not None:
       torchlib.manual_seed(seed)
     dtype = dtype if dtype is not None else torchlib.float64
     return torchlib.empty(shape, dtype=dtype).uniform_(*boundaries)
diff --git a/tensornetwork/backends/symmetric/symmetric_backend.py b/tensornetwork/backends/symmetric/symmetric_backend.py
index 0322c5f..974f3dd 100644
--- a/tensornetwork/backends/symmetric/symmetric_backend.py
+++ b/tensornetwork/backends/symmetric/symmetric_backend.py
@@ -150,7 +150,7 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
             dtype: Optional[numpy.dtype] = None,
             seed: Optional[int] = None) -> Tensor:
 
-    if seed:
+    if seed is not None:
       numpy.random.seed(seed)
     return self.bs.randn(shape, dtype)
 
@@ -160,7 +160,7 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
                      dtype: Optional[numpy.dtype] = None,
                      seed: Optional[int] = None) -> Tensor:
 
-    if seed:
+    if seed is not None:
       numpy.random.seed(seed)
     dtype = dtype if dtype is not None else numpy.float64
     return self.bs.random(shape, boundaries, dtype)
diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index 1669932..0312260 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -142,7 +142,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
             shape: Tuple[int, ...],
             dtype: Optional[Type[np.number]] = None,
             seed: Optional[int] = None) -> Tensor:
-    if seed:
+    if seed is not None:
       tf.random.set_seed(seed)
 
     dtype = dtype if dtype is not None else tf.float64
@@ -157,7 +157,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
                      boundaries: Optional[Tuple[float, float]] = (0.0, 1.0),
                      dtype: Optional[Type[np.number]] = None,
                      seed: Optional[int] = None) -> Tensor:
-    if seed:
+    if seed is not None:
       tf.random.set_seed(seed)
 
     dtype = dtype if dtype is not None else tf.float64
-- 
2.43.0


From 7c80eeb0beb6d1693e154d96b8b0ff55e023ece6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:30 +0000
Subject: [PATCH 61/73] fix: randn of an empty shape works on the numpy backend

---
 tensornetwork/backends/numpy/numpy_backend.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index df7eb67..f01ce6e 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -141,9 +141,10 @@ class NumPyBackend(abstract_backend.AbstractBackend):
     dtype = dtype if dtype is not None else np.float64
     if ((np.dtype(dtype) is np.dtype(np.complex128)) or
         (np.dtype(dtype) is np.dtype(np.complex64))):
-      return np.random.randn(
-          *shape).astype(dtype) + 1j * np.random.randn(*shape).astype(dtype)
-    return np.random.randn(*shape).astype(dtype)
+      return np.asarray(
+          np.random.standard_normal(shape).astype(dtype) +
+          1j * np.random.standard_normal(shape).astype(dtype))
+    return np.random.standard_normal(shape).astype(dtype)
 
   def random_uniform(self,
                      shape: Tuple[int, ...],
-- 
2.43.0


From 860af96cf2cbd89326e1f4fbf8ec761874276ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:30 +0000
Subject: [PATCH 62/73] fix: numpy complex dtypes are accepted by the random
 initialisers of the tensorflow backend

---
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index 0312260..82bf9dd 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -145,7 +145,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
     if seed is not None:
       tf.random.set_seed(seed)
 
-    dtype = dtype if dtype is not None else tf.float64
+    dtype = tf.as_dtype(dtype if dtype is not None else tf.float64)
     if (dtype is tf.complex128) or (dtype is tf.complex64):
       return tf.complex(
           tf.random.normal(shape=shape, dtype=dtype.real_dtype),
@@ -160,7 +160,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
     if seed is not None:
       tf.random.set_seed(seed)
 
-    dtype = dtype if dtype is not None else tf.float64
+    dtype = tf.as_dtype(dtype if dtype is not None else tf.float64)
     if (dtype is tf.complex128) or (dtype is tf.complex64):
       #pylint: disable=unexpected-keyword-arg
       return tf.complex(
-- 
2.43.0


From 36c14280a8055592ab9a077e589fb87de0da7058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:08 +0000
Subject: [PATCH 63/73] fix: bond_dimension of the last bond of an MPS

---
 tensornetwork/matrixproductstates/base_mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index 8dce6a0..91e1ca4 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -254,7 +254,7 @@ class BaseMPS:
                        f" an MPS of length {len(self)}")
     if bond < len(self):
       return self.tensors[bond].shape[0]
-    return self.tensors[bond].shape[2]
+    return self.tensors[bond - 1].shape[2]
 
   @property
   def bond_dimensions(self) -> List:
-- 
2.43.0


From 57a99ce23ae977dbbf5264ec91c9f1fbc76c7ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:16 +0000
Subject: [PATCH 64/73] fix: two-site DMRG normalizes the truncated state

---
 tensornetwork/matrixproductstates/dmrg.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/matrixproductstates/dmrg.py b/tensornetwork/matrixproductstates/dmrg.py
index 647e333..938b534 100644
--- a/tensornetwork/matrixproductstates/dmrg.py
+++ b/tensornetwork/matrixproductstates/dmrg.py
@@ -298,7 +298,8 @@ class BaseDMRG:
       local_ground_state /= self.backend.norm(local_ground_state)
 
       u, s, vh, _ = self.mps.svd(local_ground_state, 2, max_bond_dim, None)
-      s = self.backend.diagflat(s)
+      # the truncated state is normalized
+      s = self.backend.diagflat(s / self.backend.norm(s))
       self.mps.tensors[site] = u
       if site < len(self.mps.tensors) - 1:
         self.mps.center_position += 1
@@ -329,7 +330,8 @@ class BaseDMRG:
       local_ground_state /= self.backend.norm(local_ground_state)
 
       u, s, vh, _ = self.mps.svd(local_ground_state, 2, max_bond_dim, None)
-      s = self.backend.diagflat(s)
+      # the truncated state is normalized
+      s = self.backend.diagflat(s / self.backend.norm(s))
       self.mps.tensors[site] = vh
       if site > 0:
         self.mps.center_position -= 1
-- 
2.43.0


From 6662fdfb20a4063fd8afe0c330d9cc6f7d509fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:19 +0000
Subject: [PATCH 65/73] fix: network operations accept an iterator of nodes or
 edges

---
 tensornetwork/network_operations.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/network_operations.py b/tensornetwork/network_operations.py
index 6e13d9b..8720185 100644
--- a/tensornetwork/network_operations.py
+++ b/tensornetwork/network_operations.py
@@ -49,6 +49,7 @@ def copy(nodes: Iterable[AbstractNode],
       edge_dict:
         A dictionary mapping the edges to their copies.
   """
+  nodes = list(nodes)  # `nodes` can be an iterator
   node_dict = {}
   for node in nodes:
     node_dict[node] = node.copy(conjugate)
@@ -101,6 +102,7 @@ def replicate_nodes(nodes: Iterable[AbstractNode],
   Returns:
     A list containing the copies of the nodes.
   """
+  nodes = list(nodes)  # `nodes` can be an iterator
   new_nodes, _ = copy(nodes, conjugate=conjugate)
   return [new_nodes[node] for node in nodes]
 
@@ -656,6 +658,7 @@ def check_correct(nodes: Iterable[AbstractNode],
     ValueError: If the network defined by `nodes` is not
       correctly structured.
   """
+  nodes = list(nodes)  # `nodes` can be an iterator
   for node in nodes:
     for i, edge in enumerate(node.edges):
       if edge.node1 is not node and edge.node2 is not node:
@@ -729,9 +732,10 @@ def get_subgraph_dangling(nodes: Iterable[AbstractNode]) -> Set[Edge]:
   Returns:
     The set of "relatively dangling" edges.
   """
+  nodes = set(nodes)  # `nodes` can be an iterator
   output = set()
   for edge in get_all_edges(nodes):
-    if edge.is_dangling() or not set(edge.get_nodes()) <= set(nodes):
+    if edge.is_dangling() or not set(edge.get_nodes()) <= nodes:
       output.add(edge)
   return output
 
@@ -778,6 +782,7 @@ def reduced_density(traced_out_edges: Iterable[Edge]) -> Tuple[dict, dict]:
         conjugate copies.
   """
 
+  traced_out_edges = list(traced_out_edges)  # can be an iterator
   if list(filter(lambda x: not x.is_dangling(), traced_out_edges)):
     raise ValueError("traced_out_edges must only include dangling edges!")
 
-- 
2.43.0


From 15ed770950753634f4395b252b6ab6a03c60462e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:19 +0000
Subject: [PATCH 66/73] fix: contractors accept an iterator of nodes

---
 .../contractors/opt_einsum_paths/path_contractors.py  | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
index 3c6982c..e3e700c 100644
--- a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
+++ b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
@@ -60,13 +60,13 @@ def base(nodes: Iterable[AbstractNode],
 
   if not ignore_edge_order:
     if output_edge_order is None:
-      output_edge_order = list(get_subgraph_dangling(nodes))
+      output_edge_order = list(get_subgraph_dangling(nodes_set))
       if len(output_edge_order) > 1:
         raise ValueError("The final node after contraction has more than "
                          "one remaining edge. In this case `output_edge_order` "
                          "has to be provided.")
 
-    if set(output_edge_order) != get_subgraph_dangling(nodes):
+    if set(output_edge_order) != get_subgraph_dangling(nodes_set):
       raise ValueError("output edges are not equal to the remaining "
                        "non-contracted edges of the final node.")
 
@@ -216,7 +216,8 @@ def auto(nodes: Iterable[AbstractNode],
     Final node after full contraction.
   """
 
-  n = len(list(nodes))  #pytype thing
+  nodes = list(nodes)  # `nodes` can be an iterator
+  n = len(nodes)
   _nodes = nodes
   if n <= 0:
     raise ValueError("Cannot contract empty tensor network.")
@@ -324,8 +325,8 @@ def path_solver(
   elif algorithm == "greedy":
     alg = functools.partial(opt_einsum.paths.greedy, memory_limit=memory_limit)
   elif algorithm == "auto":
-    n = len(list(nodes))  #pytype thing
-    _nodes = nodes
+    nodes = list(nodes)  # `nodes` can be an iterator
+    n = len(nodes)
     if n <= 1:
       return []
     if n < 5:
-- 
2.43.0


From 990a734ab778bcd09293f112a356cafde503d106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:33 +0000
Subject: [PATCH 67/73] fix: numpy slices of the last elements with a negative
 start

---
 tensornetwork/backends/numpy/numpy_backend.py     | 3 ++-
 tensornetwork/backends/pytorch/pytorch_backend.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index f01ce6e..427dba0 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -70,7 +70,8 @@ class NumPyBackend(abstract_backend.AbstractBackend):
       raise ValueError("Lengths of start_indices and slice_sizes must be"
                        "identical.")
     obj = tuple(
-        slice(start, start + size)
+        # a negative start counts from the end
+        slice(start, start + size if start + size or start >= 0 else None)
         for start, size in zip(start_indices, slice_sizes))
     return tensor[obj]
 
diff --git a/tensornetwork/backends/pytorch/pytorch_backend.py b/tensornetwork/backends/pytorch/pytorch_backend.py
index c3aefd2..367ad45 100644
--- a/tensornetwork/backends/pytorch/pytorch_backend.py
+++ b/tensornetwork/backends/pytorch/pytorch_backend.py
@@ -59,7 +59,8 @@ class PyTorchBackend(abstract_backend.AbstractBackend):
       raise ValueError("Lengths of start_indices and slice_sizes must be"
                        "identical.")
     obj = tuple(
-        slice(start, start + size)
+        # a negative start counts from the end
+        slice(start, start + size if start + size or start >= 0 else None)
         for start, size in zip(start_indices, slice_sizes))
     return tensor[obj]
 
-- 
2.43.0


From 878033a361b3e71fb91334d7d56baff777cb3936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:33 +0000
Subject: [PATCH 68/73] fix: reorder_edges keeps the edges of a node in a list

---
 tensornetwork/network_components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index ba8c5f4..fbb8320 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -245,7 +245,7 @@ class AbstractNode(ABC):
       old_position = self.edges.index(edge)
       permutation.append(old_position)
       edge.update_axis(old_position, self, i, self)
-    self.edges = edge_order[:]
+    self.edges = list(edge_order)
     self.tensor = self.backend.transpose(self.tensor, perm=permutation)
     if self.axis_names is not None:
       # Update axis_names:
-- 
2.43.0


From 7516e8f572ceb8d94487d70881a5a3327f29d499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:59 +0000
Subject: [PATCH 69/73] fix: ncon refuses repeated open labels of different
 dimensions

---
 tensornetwork/ncon_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/ncon_interface.py b/tensornetwork/ncon_interface.py
index f47b053..fdd07c6 100644
--- a/tensornetwork/ncon_interface.py
+++ b/tensornetwork/ncon_interface.py
@@ -223,7 +223,7 @@ def _check_network(network_structure: Sequence[Sequence[Union[int, str]]],
 
   # check if contracted dimensions are matching
   mismatched_labels = []
-  for l in cont_labels:
+  for l in cont_labels + out_labels:
     dims = {
         tensor_dimensions[m][n]
         for m, labels in enumerate(network_structure)
-- 
2.43.0


From cde9a006b68ad8e7421b67abe85fa4eb8f5aa769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:10 +0000
Subject: [PATCH 70/73] fix: outer_product of a node with itself is refused up
 front

---
 tensornetwork/network_components.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index fbb8320..3e9fa82 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -2182,6 +2182,10 @@ def outer_product(node1: AbstractNode,
     raise ValueError("node {}  and node {} have different backends. "
                      "Cannot perform outer product".format(node1, node2))
 
+  if node1 is node2 and node1.get_rank() > 0:
+    raise ValueError("Cannot take the outer product of node '{}' with "
+                     "itself.".format(node1.name))
+
   backend = node1.backend
   if node1.get_rank() == 0 or node2.get_rank() == 0:
     new_tensor = backend.multiply(node1.tensor, node2.tensor)
-- 
2.43.0


From 993442bd66efc6c2031f25558aedfdb7993261a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:10 +0000
Subject: [PATCH 71/73] fix: contract gives the traced node the requested axis
 names

---
 tensornetwork/network_components.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 3e9fa82..62f5bd1 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1896,7 +1896,10 @@ def contract(edge: Edge,
 
   backend = edge.node1.backend
   if edge.node1 is edge.node2:
-    return _contract_trace(edge, name)
+    new_node = _contract_trace(edge, name)
+    if axis_names:
+      new_node.add_axis_names(axis_names)
+    return new_node
   new_tensor = backend.tensordot(edge.node1.tensor, edge.node2.tensor,
                                  [[edge.axis1], [edge.axis2]])
   new_node = Node(tensor=new_tensor,
-- 
2.43.0


From 14f83e92c7f6adca97575d99069eb3d7e04bc188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:10 +0000
Subject: [PATCH 72/73] fix: a copy node whose edges are all traces contracts
 to its dimension

---
 tensornetwork/network_components.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 62f5bd1..ca7c01d 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -906,6 +906,9 @@ class CopyNode(AbstractNode):
   def compute_contracted_tensor(self) -> Tensor:
     """Compute tensor corresponding to contraction of self with neighbors."""
     partners = self.get_partners()
+    if not partners:  # all edges are trace edges
+      return self.backend.convert_to_tensor(
+          np.array(self.dimension, dtype=self.copy_node_dtype))
     einsum_expression = self._make_einsum_expression(partners)
     tensors = [partner.get_tensor() for partner in partners]
     return self.backend.einsum(einsum_expression, *tensors)
-- 
2.43.0


From fccc26ca3bb0eaaff7cc72657462ef205cbbad38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:10 +0000
Subject: [PATCH 73/73] fix: contract_copy_node disables the contracted edges
 and releases its partners

---
 tensornetwork/network_components.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index ca7c01d..5a1562d 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1945,7 +1945,12 @@ def contract_copy_node(copy_node: CopyNode,
       new_node.add_edge(edge, new_axis)
       new_axis += 1
   assert len(new_tensor.shape) == new_axis
+  contracted_edges = copy_node.get_all_edges()
+  for partner in partners:
+    partner.fresh_edges(partner.axis_names)
   copy_node.fresh_edges(copy_node.axis_names)
+  for edge in contracted_edges:
+    edge.disable()
   return new_node
 
 
-- 
2.43.0

