"""P20: operators and vectors as tensor networks obey operator algebra.

The value of an operator is read off its network: all nodes reachable from its
edges and reference nodes, contracted over the shared edges, axes in the order
out edges, in edges (ignored edges first).  Every operation is required to
produce a network with the value of the corresponding operation on dense
arrays, for all entries and dimensions."""
import itertools
import numpy as np
import tensornetwork as tn
from tensornetwork import network_components as nc
from tensornetwork.quantum import quantum as qu
from pyvc.contract import contract
from contracts.netlib import *
from contracts.p07_contractors import use_oracle, TRUST

Q = "tensornetwork.quantum.quantum:"
NOTE = ("all entries and dimensions; up to two subsystems per side; operands "
        "that are one node with any axis order, a chain of two nodes, a node "
        "with a disconnected scalar factor, or identities")


def prepare(c):
  c.patch_obj(nc.CopyNode, "make_copy_tensor",
              staticmethod(lambda rank, dim, dtype: c.delta(rank, dim)))
  if not c.concrete:
    class shim:  # np.array(d) of a symbolic dimension is the number d
      array = staticmethod(lambda d, dtype=None: c.times(
          c.einsum([], [], []), d))
      float64, number = np.float64, np.number
    c.patch("tensornetwork.quantum.quantum", "np", shim)


class V:

  def __init__(self, obj, dense, out, inn):
    self.obj, self.dense, self.out, self.inn = obj, dense, list(out), list(inn)

  def labels(self, p):
    return ([f"{p}o{i}" for i in range(len(self.out))],
            [f"{p}i{i}" for i in range(len(self.inn))])


def leaf(c, name, out, inn, kinds=("node", "chain", "factor", "id")):
  """An operand with these spaces in one of several representations."""
  dims = list(out) + list(inn)
  k, n = len(out), len(dims)
  kinds = [x for x in kinds if
           (x != "id" or (k and k == n - k and
                          all(c.same_dim(a, b) for a, b in zip(out, inn)))) and
           (x != "chain" or n >= 2)]
  kind = c.pick(kinds)
  be = c.backend()
  labs = list(range(n))
  if kind == "id":
    obj = c.value(qu.identity, list(out), backend=be)
    return V(obj, c.einsum([[i, k + i] for i in range(k)], labs,
                           [c.eye(d) for d in out]), out, inn)
  if kind == "chain":
    bond = c.dims(1)[0]
    left = labs[:1] + labs[2:3]
    right = [i for i in labs if i not in left]
    x = c.tensor(name + "x", [dims[i] for i in left] + [bond])
    y = c.tensor(name + "y", [bond] + [dims[i] for i in right])
    n1, n2 = tn.Node(x, backend=be), tn.Node(y, backend=be)
    tn.connect(n1[len(left)], n2[0])
    e = {i: n1[q] for q, i in enumerate(left)}
    e.update({i: n2[q + 1] for q, i in enumerate(right)})
    obj = c.value(qu.quantum_constructor, [e[i] for i in labs[:k]],
                  [e[i] for i in labs[k:]])
    return V(obj, c.einsum([left + ["b"], ["b"] + right], labs, [x, y]), out, inn)
  perms = [labs]
  if n > 1:
    perms = [labs[1:] + labs[:1], labs] if n > 2 else [labs[::-1], labs]
  p = c.pick(perms)
  t = c.tensor(name, [dims[i] for i in p])
  inv = [p.index(i) for i in labs]
  if kind == "factor" or (k and n - k and c.pick(2)):
    node = tn.Node(t, backend=be)
    refs, ins, ts = None, [p], [t]
    if kind == "factor":
      s = c.tensor(name + "s", [])
      refs = [tn.Node(s, backend=be)]
      ins, ts = [p, []], [t, s]
    if not n:
      refs = refs + [node]
    obj = c.value(qu.quantum_constructor, [node[inv[i]] for i in labs[:k]],
                  [node[inv[i]] for i in labs[k:]], refs)
    return V(obj, c.einsum(ins, labs, ts), out, inn)
  if k and n - k:
    obj = c.value(qu.QuOperator.from_tensor, t, inv[:k], inv[k:], backend=be)
  elif n:
    cls = qu.QuVector if k else qu.QuAdjointVector
    if p == labs and c.pick(2):
      obj = c.value(cls.from_tensor, t, backend=be)
    else:
      obj = c.value(cls.from_tensor, t, inv, backend=be)
  else:
    obj = c.value(qu.QuScalar.from_tensor, t, backend=be)
  return V(obj, c.einsum([p], labs, [t]), out, inn)


def members(op):
  """The network of an operator, found without the code under verification."""
  todo = [e.node1 for e in list(op.out_edges) + list(op.in_edges)]
  todo += list(op.ref_nodes)
  out = []
  while todo:
    n = todo.pop()
    if n is None or any(n is m for m in out):
      continue
    out.append(n)
    for e in n.edges:
      todo += [e.node1, e.node2]
  return out


def snap(op):
  ns = members(op)
  return (op, list(op.out_edges), list(op.in_edges), list(op.ref_nodes), ns,
          [(list(n.edges), n._tensor, [(e, e.node1, e.axis1, e.node2, e.axis2)
                                      for e in n.edges]) for n in ns])


def same_list(a, b):
  return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def unchanged(c, what, snaps):
  bad = []
  for op, out, inn, refs, ns, parts in snaps:
    if not (same_list(op.out_edges, out) and same_list(op.in_edges, inn) and
            same_list(sorted(op.ref_nodes, key=id), sorted(refs, key=id))):
      bad.append("edges of the operator")
    now = members(op)
    if not same_list(sorted(now, key=id), sorted(ns, key=id)):
      bad.append("nodes of the operator")
    for n, (edges, tensor, ends) in zip(ns, parts):
      if not same_list(list(n.edges), edges) or (
          n._tensor is not tensor and not isinstance(n, nc.CopyNode)):
        bad.append("a node")
      for e, n1, a1, n2, a2 in ends:
        if e.is_disabled or e.node1 is not n1 or e.node2 is not n2 or \
            e.axis1 != a1 or e.axis2 != a2:
          bad.append("an edge")
  c.fact(f"{what}: the operands are unchanged", not bad, str(bad[:3]))


def check(c, what, r, dense, out, inn, operands=(), snaps=()):
  """Postcondition of every operation."""
  k, l = len(out), len(inn)
  cls = (qu.QuScalar if not k and not l else qu.QuVector if not l else
         qu.QuAdjointVector if not k else qu.QuOperator)
  c.fact(f"{what}: kind of the result", type(r) is cls,
         f"{type(r).__name__} instead of {cls.__name__}")
  if type(r) is not cls:
    return
  c.fact(f"{what}: is_scalar, is_vector, is_adjoint_vector",
         (bool(r.is_scalar()), bool(r.is_vector()), bool(r.is_adjoint_vector()))
         == (not k and not l, bool(k and not l), bool(l and not k)))
  ok = len(r.out_edges) == k and len(r.in_edges) == l
  c.fact(f"{what}: number of subsystems", ok)
  if not ok:
    return
  c.fact(f"{what}: spaces", all(map(c.same_dim, r.out_space, out)) and
         all(map(c.same_dim, r.in_space, inn)))
  ns = members(r)
  real = list(r.nodes)
  c.fact(f"{what}: `nodes` is the whole network",
         same_list(sorted(ns, key=id), sorted(real, key=id)))
  wf(c, what, ns)
  edges = list(r.out_edges) + list(r.in_edges)
  open_ = [e for n in ns for e in n.edges if e.is_dangling()]
  c.fact(f"{what}: the open edges are the out and in edges",
         len(open_) == len(edges) and all(any(e is f for f in edges)
                                          for e in open_))
  c.same(f"{what}: value", network_value(c, ns, edges), dense)
  for x in operands:
    mine = members(x.obj)
    c.fact(f"{what}: shares no node with an operand",
           not any(a is b for a in ns for b in mine))
  unchanged(c, what, snaps)


def spaces(c, n):
  return c.dims(n)


@contract("P20", [Q + "QuOperator.__init__", Q + "QuOperator.check_network",
                  Q + "QuOperator.from_tensor", Q + "QuVector.from_tensor",
                  Q + "QuAdjointVector.from_tensor", Q + "QuScalar.from_tensor",
                  Q + "quantum_constructor", Q + "identity", Q + "QuOperator.nodes",
                  Q + "QuOperator.in_space", Q + "QuOperator.out_space"],
          modes=("bounded",), replay=True, note=NOTE)
def construct(c):
  prepare(c)
  k, l = c.pick([(0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (2, 1), (1, 2),
                 (2, 2)])
  out, inn = c.dims(k), c.dims(l)
  if k == l and c.pick(2):
    inn = list(out)
  v = leaf(c, "a", out, inn)
  check(c, "construction", v.obj, v.dense, out, inn)
  c.cover()


@contract("P20", [Q + "QuOperator.__matmul__", Q + "check_spaces"],
          modes=("bounded",), replay=True, note=NOTE, limit=150)
def matmul(c):
  prepare(c)
  k, l, m = c.pick([(1, 1, 1), (0, 1, 0), (1, 1, 0), (0, 1, 1), (1, 0, 1),
                    (0, 0, 0), (2, 2, 0), (0, 2, 2), (1, 2, 1), (2, 1, 2),
                    (2, 2, 2), (1, 0, 0), (0, 0, 1)])
  o, s, i = c.dims(k), c.dims(l), c.dims(m)
  if k == l and c.pick(2):
    o = list(s)
  if l == m and c.pick(2):
    i = list(s)
  a, b = leaf(c, "a", o, s), leaf(c, "b", s, i)
  snaps = [snap(a.obj), snap(b.obj)]
  r = c.value(lambda: a.obj @ b.obj)
  (ao, ai), (_, bi) = a.labels("a"), b.labels("b")
  want = c.einsum([ao + ai, ai + bi], ao + bi, [a.dense, b.dense])
  check(c, "A @ B", r, want, o, i, (a, b), snaps)
  c.cover()


@contract("P20", [Q + "QuOperator.__matmul__"], modes=("bounded",), replay=True,
          note=NOTE + "; an operator times itself")
def matmul_self(c):
  prepare(c)
  n = c.pick([1, 2])
  s = c.dims(n)
  a = leaf(c, "a", s, s)
  snaps = [snap(a.obj)]
  r = c.value(lambda: a.obj @ a.obj)
  ao, ai = a.labels("a")
  bi = a.labels("b")[1]
  check(c, "A @ A", r, c.einsum([ao + ai, ai + bi], ao + bi, [a.dense, a.dense]),
        s, s, (a,), snaps)
  c.cover()


@contract("P20", [Q + "QuOperator.tensor_product"], modes=("bounded",),
          replay=True, note=NOTE, limit=150)
def tensor_product(c):
  prepare(c)
  sig = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2)]
  x, y = c.pick(sig), c.pick(sig)
  kinds = ("node", "chain", "factor", "id")
  a = leaf(c, "a", c.dims(x[0]), c.dims(x[1]), kinds)
  b = a
  if x == y and c.pick(2):
    pass  # the tensor product of an operator with itself
  else:
    b = leaf(c, "b", c.dims(y[0]), c.dims(y[1]), kinds[:2])
  snaps = [snap(a.obj), snap(b.obj)]
  r = c.value(a.obj.tensor_product, b.obj)
  (ao, ai), (bo, bi) = a.labels("a"), b.labels("b")
  want = c.einsum([ao + ai, bo + bi], ao + bo + ai + bi, [a.dense, b.dense])
  check(c, "tensor product", r, want, a.out + b.out, a.inn + b.inn, (a, b), snaps)
  c.cover()


@contract("P20", [Q + "QuOperator.__mul__", Q + "QuOperator.__rmul__"],
          modes=("bounded",), replay=True, note=NOTE)
def scalar_product(c):
  prepare(c)
  x = c.pick([(0, 0), (1, 0), (0, 1), (1, 1), (2, 1)])
  a = leaf(c, "a", c.dims(x[0]), c.dims(x[1]))
  s = c.tensor("s", [])
  form = c.pick(["node", "tensor", "qu", "rqu", "rnode"])
  be = c.backend()
  snaps = [snap(a.obj)]
  if form == "tensor":
    r = c.value(a.obj.__mul__, s)
  elif form == "node":
    r = c.value(a.obj.__mul__, tn.Node(s, backend=be))
  elif form == "rnode":
    r = c.value(a.obj.__rmul__, tn.Node(s, backend=be))
  else:
    z = c.value(qu.QuScalar.from_tensor, s, backend=be)
    snaps.append(snap(z))
    r = c.value(lambda: a.obj * z if form == "qu" else z * a.obj)
  ao, ai = a.labels("a")
  check(c, "scalar product", r, c.einsum([ao + ai, []], ao + ai, [a.dense, s]),
        a.out, a.inn, (a,), snaps)
  c.cover()


@contract("P20", [Q + "QuOperator.adjoint"], modes=("bounded",), replay=True,
          note=NOTE)
def adjoint(c):
  prepare(c)
  x = c.pick([(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (2, 2)])
  out = c.dims(x[0])
  inn = out if x[0] == x[1] and c.pick(2) else c.dims(x[1])
  a = leaf(c, "a", out, inn)
  snaps = [snap(a.obj)]
  r = c.value(a.obj.adjoint)
  ao, ai = a.labels("a")
  check(c, "adjoint", r, c.einsum([ao + ai], ai + ao, [c.conj(a.dense)]),
        a.inn, a.out, (a,), snaps)
  c.cover()


def traced(c, v, subs):
  o, i = v.labels("x")
  row = list(o), list(i)
  for s in subs:
    row[1][s] = row[0][s]
  keep_o = [o[k] for k in range(len(o)) if k not in subs]
  keep_i = [i[k] for k in range(len(i)) if k not in subs]
  return (c.einsum([row[0] + row[1]], keep_o + keep_i, [v.dense]),
          [d for k, d in enumerate(v.out) if k not in subs],
          [d for k, d in enumerate(v.inn) if k not in subs])


@contract("P20", [Q + "QuOperator.partial_trace", Q + "QuOperator.trace"],
          modes=("bounded",), replay=True, note=NOTE + "; every ordered subset of "
          "subsystems, three in the thorough tier", limit=120)
def partial_trace(c):
  prepare(c)
  n, extra = c.pick([(1, 0), (2, 0), (1, 1), (1, -1), (2, 1)] +
                    ([(3, 0)] if c.thorough else []))
  s = c.dims(n)
  out, inn = list(s), list(s)
  if extra > 0:
    out = out + c.dims(1)
  elif extra < 0:
    inn = inn + c.dims(1)
  a = leaf(c, "a", out, inn)
  snaps = [snap(a.obj)]
  if not extra and c.pick(2):
    subs = list(range(n))
    r = c.value(a.obj.trace)
  else:
    subs = c.pick([list(p) for k in range(n + 1)
                   for p in itertools.permutations(range(n), k)])
    r = c.value(a.obj.partial_trace, subs if c.pick(2) else tuple(subs))
  want, o, i = traced(c, a, subs)
  check(c, "partial trace", r, want, o, i, (a,), snaps)
  c.cover()


@contract("P20", [Q + "QuOperator.norm"], modes=("bounded",), replay=True,
          note=NOTE + "; the norm is Tr A^dagger A")
def norm(c):
  prepare(c)
  x = c.pick([(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (2, 0)])
  out = c.dims(x[0])
  inn = out if x == (1, 1) and c.pick(2) else c.dims(x[1])
  a = leaf(c, "a", out, inn)
  snaps = [snap(a.obj)]
  r = c.value(a.obj.norm)
  o, i = a.labels("x")
  check(c, "norm", r, c.einsum([o + i, o + i], [], [a.dense, c.conj(a.dense)]),
        [], [], (a,), snaps)
  c.cover()


@contract("P20", [Q + "QuVector.projector", Q + "QuAdjointVector.projector",
                  Q + "QuVector.reduced_density",
                  Q + "QuAdjointVector.reduced_density", Q + "QuVector.space",
                  Q + "QuAdjointVector.space"],
          modes=("bounded",), replay=True, note=NOTE + "; up to three subsystems",
          limit=120)
def density(c):
  prepare(c)
  n = c.pick([1, 2] + ([3] if c.thorough else []))
  d = c.dims(n)
  col = c.flag("column")
  v = leaf(c, "v", d if col else [], [] if col else d)
  c.fact("space of a vector", all(map(c.same_dim, v.obj.space, d)) and
         len(v.obj.space) == n)
  snaps = [snap(v.obj)]
  a, b = [f"a{i}" for i in range(n)], [f"b{i}" for i in range(n)]
  ket, bra = v.dense, c.conj(v.dense)
  if not col:
    ket, bra = bra, ket
  rho = V(None, c.einsum([a, b], a + b, [ket, bra]), d, d)
  if c.pick(2):
    r = c.value(v.obj.projector)
    check(c, "projector", r, rho.dense, d, d, (v,), snaps)
  else:
    subs = c.pick([list(p) for k in range(n + 1)
                   for p in itertools.permutations(range(n), k)])
    r = c.value(v.obj.reduced_density, subs)
    want, o, i = traced(c, rho, subs)
    check(c, "reduced density", r, want, o, i, (v,), snaps)
  c.cover()


ELIM = ["I", "II", "III", "vI", "vII", "vIw", "tI", "tII", "mI", "mII", "ImI",
        "ll", "mIm"]


def elim_net(c, spec):
  """v/w: vectors, m: matrix, I: identity; a leading t closes the chain."""
  be = c.backend()
  d = c.dims(1)[0]
  closed = spec[0] in "t"
  loop = spec == "ll"
  items = spec[1:] if closed else ("I" if loop else spec)
  nodes, ins, ts, ends = [], [], [], []
  at = 0
  for j, x in enumerate(items):
    if x == "I":
      nodes.append(tn.CopyNode(2, d, backend=be))
      a = c.pick(2)
      ends.append((nodes[-1][a], nodes[-1][1 - a]))
      ins.append([at, at + 1])
      ts.append(c.eye(d))
      at += 1
    elif x == "m":
      t = c.tensor(f"m{j}", [d, d])
      nodes.append(tn.Node(t, backend=be))
      ends.append((nodes[-1][0], nodes[-1][1]))
      ins.append([at, at + 1])
      ts.append(t)
      at += 1
    else:
      t = c.tensor(f"v{j}", [d])
      nodes.append(tn.Node(t, backend=be))
      ends.append((None, nodes[-1][0]) if j == 0 else (nodes[-1][0], None))
      ins.append([at])
      ts.append(t)
  for (_, a), (b, _) in zip(ends, ends[1:]):
    tn.connect(*((a, b) if c.pick(2) else (b, a)))
  if closed or loop:
    tn.connect(ends[0][0], ends[-1][1])
    ins[-1] = [0 if l == at else l for l in ins[-1]]
    return nodes, [], c.einsum(ins, [], ts)
  edges, labs = [], []
  if ends[0][0] is not None:
    edges.append(ends[0][0])
    labs.append(ins[0][0])
  if ends[-1][1] is not None:
    edges.append(ends[-1][1])
    labs.append(ins[-1][-1])
  return nodes, edges, c.einsum(ins, labs, ts)


@contract("P20", [Q + "eliminate_identities",
                  "tensornetwork.network_operations:remove_node",
                  "tensornetwork.network_components:disconnect"],
          modes=("bounded",), replay=True,
          note="all entries and dimensions; chains and loops of up to three "
          "identities and matrices, every node order and orientation")
def eliminate(c):
  prepare(c)
  spec = c.pick(ELIM)
  nodes, edges, want = elim_net(c, spec)
  order = c.pick([list(p) for p in itertools.permutations(range(len(nodes)))])
  nd, ed = c.value(qu.eliminate_identities, [nodes[i] for i in order])
  c.fact("eliminate_identities: every open edge has a replacement",
         all(e in ed for e in edges))
  new = [ed[e] for e in edges]
  c.fact("eliminate_identities: the replacements are open edges",
         all(e.is_dangling() and not e.is_disabled for e in new))
  left = [nd[n] for n in nodes if n in nd]
  wf(c, "eliminate_identities", left)
  inside = lambda n: n is None or any(n is m for m in left)
  c.fact("eliminate_identities: the replacements belong to the network",
         all(inside(e.node1) and inside(e.node2) for n in left for e in n.edges)
         and all(inside(e.node1) for e in new))
  c.same("eliminate_identities: value of the network",
         network_value(c, left, new), want)
  copies = [n for n in left if isinstance(n, nc.CopyNode)]
  c.fact("eliminate_identities: only free identities are left",
         all(e.is_dangling() for n in copies for e in n.edges))
  c.cover()


@contract("P20", [Q + "QuOperator.contract", Q + "QuOperator.eval"],
          modes=("bounded",), replay=True, trusted=TRUST, limit=150,
          note=NOTE + "; products of two operands; every contraction sequence")
def evaluate(c):
  prepare(c)
  use_oracle(c)
  k, l, m = c.pick([(1, 1, 1), (0, 1, 0), (1, 1, 0), (0, 1, 1), (1, 0, 1),
                    (2, 1, 0)])
  o, s, i = c.dims(k), c.dims(l), c.dims(m)
  if k == l and c.pick(2):
    o = list(s)
  kinds = ("node", "factor", "id")
  a = leaf(c, "a", o, s, kinds)
  b = leaf(c, "b", s, i, ("node",))
  snaps = [snap(a.obj), snap(b.obj)]
  r = c.value(lambda: a.obj @ b.obj)
  (ao, ai), (_, bi) = a.labels("a"), b.labels("b")
  lab = ao + bi
  want = c.einsum([ao + ai, ai + bi], lab, [a.dense, b.dense])
  how = c.pick(["eval", "contract", "order"])
  if how == "eval":
    t = c.value(r.eval)
    c.same("eval: out axes, then in axes", t, want)
  elif how == "contract":
    x = c.value(r.contract)
    c.fact("contract: works in place", x is r)
    t = c.value(r.eval)
    c.same("eval after contract", t, want)
  else:
    edges = list(r.out_edges) + list(r.in_edges)
    p = c.pick([list(q) for q in itertools.permutations(range(len(lab)))])
    t = c.value(r.eval, final_edge_order=[edges[q] for q in p])
    c.same("eval: requested axis order", t, c.einsum([lab], [lab[q] for q in p],
                                                    [want]))
  check(c, "after eval", r, want, o, i, (a, b), snaps)
  c.fact("eval: a single node is left", len(members(r)) == 1)
  c.cover()


@contract("P20", [Q + "check_spaces", Q + "QuOperator.check_network",
                  Q + "QuOperator.__mul__", Q + "QuOperator.partial_trace"],
          modes=("bounded",), replay=True, note="refusals with generic spaces")
def refusals(c):
  prepare(c)
  be = c.backend()
  pair = None
  what = c.pick(["matmul", "count", "mul", "mul tensor", "trace", "forgotten",
                 "bound", "bound in", "empty", "ignored", "mul node"])
  if what == "matmul":
    # equal in all but one subsystem
    n = c.pick([1, 2])
    s, t = c.dims(n), c.dims(1)
    j = c.pick(n) if n > 1 else 0
    u = [t[0] if q == j else s[q] for q in range(n)]
    pair = (s[j], u[j])
    a = leaf(c, "a", c.dims(1), s, ("node",))
    b = leaf(c, "b", u, c.dims(1), ("node",))
    ops = (a, b)
    f = lambda: a.obj @ b.obj
  elif what == "count":
    s = c.dims(1)
    a = leaf(c, "a", c.dims(1), s, ("node",))
    b = leaf(c, "b", s + c.dims(1), [], ("node",))
    ops = (a, b)
    if c.pick(2):
      f = lambda: a.obj @ b.obj
    else:
      f = lambda: b.obj.adjoint() @ a.obj.adjoint()
  elif what == "mul":
    s = c.dims(1)
    a, b = leaf(c, "a", s, s, ("node",)), leaf(c, "b", s, s, ("node",))
    ops = (a, b)
    f = lambda: a.obj * b.obj
  elif what in ("mul tensor", "mul node"):
    s = c.dims(1)
    a = leaf(c, "a", s, s, ("node",))
    ops = (a,)
    t = c.tensor("t", s)
    t = t if what == "mul tensor" else tn.Node(t, backend=be)
    f = (lambda: a.obj * t) if c.pick(2) else (lambda: a.obj.__rmul__(t))
  elif what == "trace":
    s, t = c.dims(2)
    pair = (s, t)
    a = leaf(c, "a", [s, s], [s, t], ("node",))
    ops = (a,)
    f = a.obj.trace if c.pick(2) else lambda: a.obj.partial_trace([1])
  else:
    ops = ()
    d = c.dims(3)
    n = tn.Node(c.tensor("t", d), backend=be)
    m = tn.Node(c.tensor("u", [d[0], d[1]]), backend=be)
    if what == "forgotten":
      f = c.pick([lambda: qu.QuVector([n[0], n[1]]),
                  lambda: qu.QuAdjointVector([n[2]]),
                  lambda: qu.QuOperator([n[0]], [n[2]]),
                  lambda: qu.QuScalar([n]),
                  lambda: qu.quantum_constructor([n[0], n[1], n[2]], [], [m])])
    elif what == "empty":
      f = c.pick([lambda: qu.QuScalar([]), lambda: qu.quantum_constructor([], [])])
    else:
      tn.connect(n[0], m[0])
      if what == "bound":
        f = lambda: qu.QuVector([n[0], n[1], n[2], m[1]])
      elif what == "bound in":
        f = lambda: qu.QuOperator([n[1]], [n[0], n[2], m[1]])
      else:
        f = lambda: qu.QuOperator([n[1]], [n[2]], ignore_edges=[m[1], n[0]])
  snaps = [snap(v.obj) for v in ops]
  r = c.call(f)
  if pair and c.same_dim(*pair):
    # the dimensions agree on this path: nothing to refuse
    c.fact(f"accepted: {what} with equal dimensions", r.ok, repr(r.exc))
    return
  c.fact(f"refused: {what}", not r.ok and isinstance(r.exc, ValueError),
         repr(r.exc) if not r.ok else "accepted")
  unchanged(c, "refusal", snaps)
  c.cover()


@contract("P20", [Q + "QuOperator.__matmul__", Q + "QuOperator.adjoint",
                  Q + "QuOperator.partial_trace", Q + "QuOperator.tensor_product",
                  Q + "QuOperator.eval"],
          modes=("bounded",), replay=True, trusted=TRUST,
          note="all entries and dimensions; ignored edges are carried along and "
          "come first")
def ignored(c):
  prepare(c)
  use_oracle(c)
  d, z = c.dims(2)
  t = c.tensor("t", [d, z, d])
  be = c.backend()
  n = tn.Node(t, backend=be)
  a = c.value(qu.QuOperator, [n[0]], [n[2]], ignore_edges=[n[1]])
  v = leaf(c, "v", [d], [], ("node",))
  what = c.pick(["matmul", "left", "adjoint", "trace", "tensor", "self"])
  if what == "matmul":
    r = c.value(lambda: a @ v.obj)
    want = c.einsum(["azb", "b"], "za", [t, v.dense])
  elif what == "left":
    w = c.value(v.obj.adjoint)
    r = c.value(lambda: w @ a)
    want = c.einsum(["azb", "a"], "zb", [t, c.conj(v.dense)])
  elif what == "adjoint":
    r = c.value(a.adjoint)
    want = c.einsum(["azb"], "zba", [c.conj(t)])
  elif what == "trace":
    r = c.value(a.trace)
    want = c.einsum(["aza"], "z", [t])
  elif what == "tensor":
    r = c.value(a.tensor_product, v.obj)
    want = c.einsum(["azb", "c"], "zacb", [t, v.dense])
  else:
    r, want = a, c.einsum(["azb"], "zab", [t])
  c.fact("one ignored edge", len(r.ignore_edges) == 1)
  c.same(f"{what}: eval with an ignored edge", c.value(r.eval), want)
  c.cover()
