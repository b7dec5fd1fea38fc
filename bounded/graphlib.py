"""Oracle for tensor networks: reads a graph's meaning from edge endpoints only.

Nothing here calls a network operation of the library: the value of a network
is computed by numpy's sublist einsum from (node.tensor, edge endpoints).
"""
import numpy as np
from bounded.core import require, Violation, tonp


def slots(node):
  return list(node.edges)


def check_wf(nodes, msg="graph"):
  """The well-formedness invariant of P01 on every node reachable from nodes."""
  seen, todo = [], list(nodes)
  ids = set()
  while todo:
    n = todo.pop()
    if id(n) in ids:
      continue
    ids.add(id(n))
    seen.append(n)
    for e in n.edges:
      require(e is not None, f"{msg}: node {n.name!r} has an empty edge slot")
      for m in (e.node1, e.node2):
        if m is not None:
          todo.append(m)
  count = {}
  for n in seen:
    shape = tuple(n.shape)
    es = slots(n)
    require(
        len(es) == len(shape),
        f"{msg}: node {n.name!r} has {len(es)} edge slots for a tensor of rank "
        f"{len(shape)}")
    names = n.axis_names
    if names is not None:
      require(
          len(names) == len(shape),
          f"{msg}: node {n.name!r} of rank {len(shape)} has {len(names)} axis "
          f"names {list(names)}")
    for k, e in enumerate(es):
      ends = [(e.node1, e.axis1), (e.node2, e.axis2)]
      require(
          any(m is n and a == k for m, a in ends),
          f"{msg}: slot {k} of node {n.name!r} holds an edge whose ends are "
          f"{[(getattr(m,'name',None),a) for m,a in ends]}")
      count.setdefault(id(e), [e, []])[1].append((id(n), k))
  for e, places in count.values():
    want = [(id(e.node1), e.axis1)]
    if e.node2 is not None:
      want.append((id(e.node2), e.axis2))
    require(
        sorted(want) == sorted(places),
        f"{msg}: edge ends {want} but the edge is listed in slots {places}")
    require(e.is_dangling() == (e.node2 is None),
            f"{msg}: is_dangling disagrees with the edge's ends")
    dims = [m.shape[a] for m, a in ((e.node1, e.axis1), (e.node2, e.axis2))
            if m is not None]
    require(len(set(dims)) == 1, f"{msg}: edge joins axes of dimensions {dims}")
    require(e.dimension == dims[0], f"{msg}: edge dimension {e.dimension} but "
            f"axes have {dims}")
  return seen


def value(nodes, out_edges, conj=False):
  """Einstein sum of the network formed by nodes, axes ordered as out_edges."""
  labels = {}
  ops = []
  for n in nodes:
    t = tonp(n.tensor)
    sub = []
    for e in n.edges:
      sub.append(labels.setdefault(id(e), len(labels)))
    ops.append((t, sub))
  out = []
  for e in out_edges:
    if id(e) not in labels:
      raise Violation("an expected dangling edge is not attached to the network")
    out.append(labels[id(e)])
  return contract_labels(ops, out)


def contract_labels(ops, out):
  """sum over labels not in out; np.einsum handles traces and batches."""
  if len(ops) == 0:
    return np.array(1.0)
  # pairwise with accumulation to keep intermediate size small
  ops = [(np.asarray(t), list(s)) for t, s in ops]
  from collections import Counter
  while True:
    cnt = Counter()
    for t, s in ops:
      for l in set(s):
        cnt[l] += 1
    # reduce single operands
    new = []
    for t, s in ops:
      keep = [l for l in dict.fromkeys(s) if cnt[l] > 1 or l in out]
      m = {l: i for i, l in enumerate(dict.fromkeys(s))}
      new.append((np.einsum(t, [m[l] for l in s], [m[l] for l in keep]), keep))
    ops = new
    if len(ops) == 1:
      t, s = ops[0]
      m = {l: i for i, l in enumerate(s)}
      return np.einsum(t, [m[l] for l in s], [m[l] for l in out])
    # contract first operand with the one sharing most labels
    t0, s0 = ops[0]
    best = max(range(1, len(ops)), key=lambda i: len(set(s0) & set(ops[i][1])))
    t1, s1 = ops.pop(best)
    ops.pop(0)
    rest = set(l for _, s in ops for l in s)
    allv = list(dict.fromkeys(s0 + s1))
    m = {l: i for i, l in enumerate(allv)}
    keep = [l for l in allv if l in rest or l in out]
    t = np.einsum(t0, [m[l] for l in s0], t1, [m[l] for l in s1],
                  [m[l] for l in keep])
    ops.insert(0, (t, keep))


def snapshot(nodes):
  """Everything observable about a graph, to compare before/after a refusal."""
  out = []
  for n in nodes:
    out.append((id(n), n.name, tonp(n.tensor).tobytes(), tuple(n.shape),
                None if n.axis_names is None else tuple(n.axis_names),
                tuple((id(e), id(e.node1), e.axis1, id(e.node2), e.axis2,
                       e.name) for e in n.edges)))
  return out


def make_network(tn, rng, backend="numpy", n_nodes=None, max_rank=4, dims=(1, 4),
                 trace=True, dtype=None, p_bond=0.6, names=True, max_edges=16,
                 min_rank=0):
  """Random network; every slot pair of equal dimension may be bonded."""
  if n_nodes is None:
    n_nodes = rng.int(1, 4)
  if dtype is None:
    dtype = rng.dtype()
  ranks = [rng.int(min_rank, max_rank) for _ in range(n_nodes)]
  free = [(i, a) for i in range(n_nodes) for a in range(ranks[i])]
  shapes = [[rng.int(*dims) for _ in range(r)] for r in ranks]
  bonds = []
  free = rng.shuffled(free)
  while len(free) >= 2:
    x = free.pop()
    if not rng.bool(p_bond):
      continue
    cand = [y for y in free if trace or y[0] != x[0]]
    if not cand:
      continue
    y = rng.choice(cand)
    free.remove(y)
    d = rng.int(*dims)
    shapes[x[0]][x[1]] = d
    shapes[y[0]][y[1]] = d
    bonds.append((x, y))
  nodes = []
  for i in range(n_nodes):
    arr = rng.array(tuple(shapes[i]), dtype)
    kw = {}
    if names and rng.bool(0.5):
      kw["axis_names"] = [f"n{i}a{a}" for a in range(ranks[i])]
    nodes.append(tn.Node(arr, name=f"node{i}", backend=backend, **kw))
  for k, (x, y) in enumerate(bonds):
    if rng.bool():
      x, y = y, x
    tn.connect(nodes[x[0]][x[1]], nodes[y[0]][y[1]],
               name=f"e{k}" if rng.bool() else None)
  rng.note("network", backend, "shapes", [tuple(s) for s in shapes], "bonds",
           bonds, np.dtype(dtype).name)
  return nodes


def dangling(nodes):
  return [e for n in nodes for e in n.edges if e.node2 is None]


def nondangling(nodes):
  out = []
  for n in nodes:
    for e in n.edges:
      if e.node2 is not None and all(e is not f for f in out):
        out.append(e)
  return out
