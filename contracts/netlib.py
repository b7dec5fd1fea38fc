"""Networks of enumerated structure with arbitrary tensors and dimensions."""
import itertools
import tensornetwork as tn
from tensornetwork import network_components as nc


class Net:
  """legs: one list of labels per node; a label on two legs is an edge."""

  def __init__(self, c, legs, orient=False, names=True, prefix="t", fresh=None):
    self.c, self.legs = c, [list(x) for x in legs]
    self.labels = []
    for ls in legs:
      for l in ls:
        if l not in self.labels:
          self.labels.append(l)
    self.dim = dict(zip(self.labels, c.dims(len(self.labels))))
    self.tensors = [
        c.tensor(f"{prefix}{i}", [self.dim[l] for l in ls])
        for i, ls in enumerate(legs)
    ]
    be = c.backend()
    self.nodes = [
        tn.Node(t, name=f"node{i}", backend=be,
                axis_names=[f"{prefix}{i}_{k}" for k in range(len(legs[i]))]
                if names and legs[i] else None)
        for i, t in enumerate(self.tensors)
    ]
    self.edge = {}
    self.first, self.first_end = {}, {}
    where = {}
    for i, ls in enumerate(legs):
      for k, l in enumerate(ls):
        where.setdefault(l, []).append((i, k))
    self.where = where
    for l in self.labels:
      w = where[l]
      es = [self.nodes[i].edges[k] for i, k in w]
      if len(es) == 2:
        if orient and c.pick(2):
          es.reverse()
          w = w[::-1]
        self.first[l] = w[0][0]
        self.first_end[l] = 1 if w == where[l] else 2
        self.edge[l] = nc.connect(es[0], es[1], name="e" + str(l))
      else:
        self.edge[l] = es[0]
    self.open = [l for l in self.labels if len(where[l]) == 1]

  def label(self, e):
    for l, x in self.edge.items():
      if x is e:
        return l
    return None

  def where_first(self, e):
    """Index of the node that is node1 of the edge."""
    return self.first[self.label(e)]

  def value(self, out, only=None):
    idx = range(len(self.legs)) if only is None else only
    return self.c.einsum([self.legs[i] for i in idx], out,
                         [self.tensors[i] for i in idx])


def wf(c, what, nodes):
  """Every node has one edge per axis and each slot's edge names the slot."""
  for r in nodes:
    n = len(r.shape)
    ok = len(r.edges) == n and (not r.axis_names or len(r.axis_names) == n)
    c.fact(f"{what}: one edge and one axis name per axis", ok,
           f"{len(r.edges)} edges, {r.axis_names} for rank {n}")
    bad = []
    for k, e in enumerate(r.edges):
      ends = [(e.node1, e.axis1)]
      if not e.is_dangling():
        ends.append((e.node2, e.axis2))
      hits = sum(1 for m, a in ends if m is r and a == k)
      if hits != 1 or e.is_disabled:
        bad.append(k)
      for m, a in ends:
        if not (0 <= a < len(m.edges)) or m.edges[a] is not e:
          bad.append((k, "other end"))
      if any(a >= len(m.shape) for m, a in ends):
        bad.append((k, "axis out of range"))
      elif len(ends) == 2 and not c.same_dim(ends[0][0].shape[ends[0][1]],
                                           ends[1][0].shape[ends[1][1]]):
        bad.append((k, "dimensions"))
    c.fact(f"{what}: edges and slots agree", not bad, str(bad))


def same_value(c, what, node, net, order=None, legs=None, tensors=None):
  """The node's tensor is the Einstein sum, its edges the surviving ones."""
  labs = [net.label(e) for e in node.edges]
  if any(l is None for l in labs):
    c.fact(f"{what}: edges of the result are the surviving edges", False,
           str(labs))
    return
  if order is not None:
    c.fact(f"{what}: documented edge order", labs == list(order),
           f"{labs} instead of {list(order)}")
  uniq = []
  for l in labs:
    if l not in uniq:
      uniq.append(l)
  # a trace edge that stays open: both slots carry separate data
  ins, out, seen = [], [], {}
  use_legs = net.legs if legs is None else legs
  use_t = net.tensors if tensors is None else tensors
  trace_open = [l for l in uniq if labs.count(l) == 2]
  for i, ls in enumerate(use_legs):
    row = []
    for l in ls:
      if l in trace_open:
        seen[l] = seen.get(l, 0) + 1
        row.append((l, seen[l]))
      else:
        row.append(l)
    ins.append(row)
  for k, l in enumerate(labs):
    if l in trace_open:
      e = node.edges[k]
      # which original end sits here: node1/axis1 first when it names slot k
      end = 1 if (e.node1 is node and e.axis1 == k) else 2
      first = net_end(net, l)
      out.append((l, first if end == 1 else 3 - first))
    else:
      out.append(l)
  c.same(f"{what}: value is the Einstein sum", node.tensor,
         c.einsum(ins, out, use_t))


def net_end(net, l):
  """Which occurrence (1 or 2, in leg order) was made node1/axis1."""
  return getattr(net, "first_end", {}).get(l, 1)


def matchings(r1, r2, k):
  """Ways to pair k axes of a first node with k axes of a second."""
  for a in itertools.combinations(range(r1), k):
    for b in itertools.permutations(range(r2), k):
      yield list(zip(a, b))


def pair_legs(r1, r2, match):
  l1 = [f"a{i}" for i in range(r1)]
  l2 = [f"b{i}" for i in range(r2)]
  for n, (i, j) in enumerate(match):
    l1[i] = l2[j] = f"s{n}"
  return l1, l2


def network_value(c, nodes, out):
  """The value of a whole network, read off its current edges."""
  ids = {}
  ins = []
  for n in nodes:
    row = []
    for e in n.edges:
      row.append(ids.setdefault(id(e), len(ids)))
    ins.append(row)
  return c.einsum(ins, [ids[id(e)] for e in out], [n.tensor for n in nodes])


def prod(xs):
  r = 1
  for x in xs:
    r = x * r
  return r


def traced_legs(n, k):
  """Legs of a rank-n node with k trace edges."""

  def rec(free, k):
    if k == 0:
      yield []
      return
    for i, j in itertools.combinations(free, 2):
      rest = [x for x in free if x not in (i, j) and x > i]
      for m in rec(rest, k - 1):
        yield [(i, j)] + m

  for m in rec(list(range(n)), k):
    legs = [f"a{i}" for i in range(n)]
    for q, (i, j) in enumerate(m):
      legs[i] = legs[j] = f"s{q}"
    yield legs
