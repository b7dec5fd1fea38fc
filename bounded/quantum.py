"""Executable contracts: P20 (operators and vectors as tensor networks) against
dense matrices.  Every value is carried as (object, dense array with out axes
first, out dims, in dims)."""
import numpy as np
import tensornetwork as tn
from tensornetwork.quantum import quantum as qu
from tensornetwork import contractors
from bounded.core import scenario, require, same, raises, Skip, tonp


class V:

  def __init__(self, obj, dense, nout):
    self.obj, self.dense, self.nout = obj, np.asarray(dense), nout

  @property
  def out(self):
    return self.dense.shape[:self.nout]

  @property
  def inn(self):
    return self.dense.shape[self.nout:]


def snapshot(op):
  nodes = sorted(op.nodes, key=id)
  return (list(map(id, op.out_edges)), list(map(id, op.in_edges)),
          set(map(id, op.ref_nodes)), set(map(id, op.ignore_edges)),
          [(id(n), [id(e) for e in n.edges], np.array(tonp(n.tensor))
            if not isinstance(n, tn.CopyNode) else None) for n in nodes],
          nodes)


def unchanged(op, s, what):
  t = snapshot(op)
  require(s[:4] == t[:4], f"{what}: an operand's edges changed")
  require(len(s[4]) == len(t[4]), f"{what}: an operand's network changed")
  for (a, b, x), (c, d, y) in zip(s[4], t[4]):
    require(a == c and b == d, f"{what}: an operand's network changed")
    if x is not None:
      require(np.array_equal(x, y), f"{what}: an operand's tensor changed")


# ---------------------------------------------------------------- leaves
def _conv(x, backend):
  return tn.backends.backend_factory.get_backend(backend).convert_to_tensor(x)


def leaf(rng, backend, dtype, out, inn):
  """an operator with the given spaces in one of several representations"""
  k, l = len(out), len(inn)
  dims = list(out) + list(inn)
  how = rng.int(0, 3)
  if how == 0 and k == l and tuple(out) == tuple(inn) and k:
    obj = qu.identity(tuple(out), backend=backend, dtype=dtype)
    D = int(np.prod(out))
    return V(obj, np.eye(D, dtype=dtype).reshape(dims), k)
  a = rng.array(tuple(dims), dtype)
  if how == 1 and len(dims) >= 2:
    # a chain of two nodes with some bonds
    cut = rng.int(1, len(dims) - 1)
    p = rng.perm(len(dims))
    left, right = p[:cut], p[cut:]
    bd = rng.int(1, 3)
    x = rng.array(tuple(dims[i] for i in left) + (bd,), dtype)
    y = rng.array((bd,) + tuple(dims[i] for i in right), dtype)
    d = np.tensordot(x, y, 1).transpose(np.argsort(list(left) + list(right)))
    n1 = tn.Node(_conv(x, backend), backend=backend)
    n2 = tn.Node(_conv(y, backend), backend=backend)
    if rng.bool():
      n1[len(left)] ^ n2[0]
    else:
      n2[0] ^ n1[len(left)]
    e = [None] * len(dims)
    for q, i in enumerate(left):
      e[i] = n1[q]
    for q, i in enumerate(right):
      e[i] = n2[q + 1]
    return V(qu.quantum_constructor(e[:k], e[k:]), d, k)
  if how == 2 and dims:
    # outer factor: a disconnected scalar node, and an axis permutation
    s = rng.array((), dtype)
    p = rng.perm(len(dims))
    n = tn.Node(_conv(a.transpose(p), backend), backend=backend)
    e = [n[int(np.argsort(p)[i])] for i in range(len(dims))]
    return V(qu.quantum_constructor(
        e[:k], e[k:], [tn.Node(_conv(s, backend), backend=backend)]), a * s, k)
  p = rng.perm(len(dims))
  inv = [int(i) for i in np.argsort(p)]
  t = _conv(a.transpose(p), backend)
  if k and l:
    obj = qu.QuOperator.from_tensor(t, inv[:k], inv[k:], backend=backend)
  elif k:
    obj = qu.QuVector.from_tensor(t, inv, backend=backend)
    if rng.bool(0.3):
      obj = qu.QuVector.from_tensor(_conv(a, backend), backend=backend)
  elif l:
    obj = qu.QuAdjointVector.from_tensor(t, inv, backend=backend)
    if rng.bool(0.3):
      obj = qu.QuAdjointVector.from_tensor(_conv(a, backend), backend=backend)
  else:
    obj = qu.QuScalar.from_tensor(t, backend=backend)
  return V(obj, a, k)


def _space(rng, lo, hi, backend):
  return tuple(rng.int(1, 3) for _ in range(rng.int(lo, hi)))


def kind_ok(v):
  o = v.obj
  require(isinstance(o, qu.QuOperator), f"result is a {type(o)}")
  require(tuple(o.out_space) == v.out and tuple(o.in_space) == v.inn,
          f"spaces {o.out_space} x {o.in_space} instead of {v.out} x {v.inn}")
  k, l = len(v.out), len(v.inn)
  require(o.is_scalar() == (k == 0 and l == 0) and
          o.is_vector() == (k > 0 and l == 0) and
          o.is_adjoint_vector() == (k == 0 and l > 0), "kind of the result")
  cls = (qu.QuScalar if not k and not l else qu.QuVector if not l else
         qu.QuAdjointVector if not k else qu.QuOperator)
  require(type(o) is cls, f"a {type(o).__name__} instead of {cls.__name__}")
  if k and not l or l and not k:
    require(list(o.space) == list(v.dense.shape) and
            o.subsystem_edges == (o.out_edges if k else o.in_edges), "space")


def _adj(v):
  k, n = v.nout, v.dense.ndim
  return np.conj(v.dense.transpose(list(range(k, n)) + list(range(k)))), n - k


def _mat(x, y):
  return np.tensordot(x.dense, y.dense, (range(x.nout, x.dense.ndim),
                                         range(y.nout)))


def _ptrace(v, subs):
  k, l = len(v.out), len(v.inn)
  a = v.dense
  lab = list(range(k + l))
  for i in subs:
    lab[k + i] = lab[i]
  out = [lab[i] for i in range(k) if i not in subs] + \
      [lab[k + i] for i in range(l) if i not in subs]
  return np.einsum(a, lab, out) if lab else a, k - len(subs)


def _tens(x, y):
  a = np.multiply.outer(x.dense, y.dense)
  k1, n1 = x.nout, x.dense.ndim
  k2, n2 = y.nout, y.dense.ndim
  p = (list(range(k1)) + [n1 + i for i in range(k2)] + list(range(k1, n1)) +
       [n1 + i for i in range(k2, n2)])
  return a.transpose(p), k1 + k2


def derive(rng, pool, backend, dtype, seen):
  """one more operation on values of the pool"""
  x = rng.choice(pool)
  op = rng.choice(["matmul", "matmul", "matmul", "tensor", "mul", "rmul",
                   "adjoint", "ptrace", "trace", "norm", "projector", "reduced",
                   "qmul"])
  seen.append(op)
  if op == "matmul":
    # any partner with the matching space, otherwise a fresh leaf
    ys = [y for y in pool if y.out == x.inn]
    if ys and rng.bool(0.7):
      y = rng.choice(ys)
    else:
      y = leaf(rng, backend, dtype, x.inn,
               x.inn if rng.bool(0.4) else _space(rng, 0, 2, backend))
      pool.append(y)
    if x.dense.ndim + y.dense.ndim - 2 * len(x.inn) > 6:
      raise Skip("rank")
    return (x, y), V(x.obj @ y.obj, _mat(x, y), x.nout)
  if op == "tensor":
    y = rng.choice(pool)
    if x.dense.ndim + y.dense.ndim > 6:
      raise Skip("rank")
    return (x, y), V(x.obj.tensor_product(y.obj), *_tens(x, y))
  if op in ("mul", "rmul"):
    s = rng.array((), dtype)
    form = rng.int(0, 2)
    if form == 0:
      z = complex(s) if dtype == np.complex128 else float(s)
      # plain numbers keep the tensors' type in every backend
      z = np.array(z, dtype=dtype)[()]
    elif form == 1:
      z = tn.Node(_conv(s, backend), backend=backend)
    else:
      z = _conv(s, backend)
    r = x.obj * z if op == "mul" or form != 0 else z * x.obj
    return (x,), V(r, x.dense * s, x.nout)
  if op == "qmul":
    ys = [y for y in pool if not y.dense.ndim]
    y = rng.choice(ys) if ys else leaf(rng, backend, dtype, (), ())
    if not ys:
      pool.append(y)
    a, b = (x, y) if rng.bool() else (y, x)
    return (x, y), V(a.obj * b.obj, x.dense * y.dense, x.nout)
  if op == "adjoint":
    return (x,), V(x.obj.adjoint(), *_adj(x))
  if op == "ptrace":
    same_dim = [i for i in range(min(len(x.out), len(x.inn)))
                if x.out[i] == x.inn[i]]
    subs = rng.subset(same_dim)
    form = rng.choice([list, tuple, set])
    return (x,), V(x.obj.partial_trace(form(subs)), *_ptrace(x, subs))
  if op == "trace":
    if x.out != x.inn:
      raise Skip("not square")
    return (x,), V(x.obj.trace(), *_ptrace(x, list(range(len(x.inn)))))
  if op == "norm":
    return (x,), V(x.obj.norm(), np.sum(np.abs(x.dense)**2).astype(dtype), 0)
  if (len(x.out) == 0) == (len(x.inn) == 0) or x.dense.ndim > 3:
    raise Skip("not a vector")
  flat = x.dense
  if x.nout:
    rho = np.multiply.outer(flat, np.conj(flat))
  else:
    rho = np.multiply.outer(np.conj(flat), flat)
  p = V(None, rho, flat.ndim)
  if op == "projector":
    return (x,), V(x.obj.projector(), rho, flat.ndim)
  subs = rng.subset(range(flat.ndim))
  return (x,), V(x.obj.reduced_density(subs), *_ptrace(p, subs))


def evaluate(rng, v, what, backend):
  how = rng.int(0, 3)
  o = v.obj
  if how == 0:
    res = o.eval()
  elif how == 1:
    res = o.eval(contractors.optimal if len(o.nodes) < 7 else contractors.auto)
  elif how == 2:
    r = o.contract()
    require(r is o and len(o.nodes) == 1, f"{what}: contract works in place")
    kind_ok(v)
    res = o.eval()
  else:
    order = o.out_edges + o.in_edges
    p = rng.perm(len(order))
    res = o.eval(final_edge_order=[order[i] for i in p])
    same(res, v.dense.transpose(p), f"{what}: eval with an edge order")
    res = o.eval()
  same(res, v.dense, what)
  kind_ok(v)


def _algebra(rng, backend, steps):
  dtype = rng.choice([np.float64, np.complex128])
  pool = []
  s = _space(rng, 1, 2, backend)
  for _ in range(rng.int(1, 3)):
    k = rng.int(0, 3)
    a = s if rng.bool(0.7) else _space(rng, 0, 2, backend)
    b = s if rng.bool(0.7) else _space(rng, 0, 2, backend)
    pool.append(leaf(rng, backend, dtype, *[(a, b), (a, ()), ((), b),
                                            (s, s)][k]))
  for v in pool:
    kind_ok(v)
  seen = []
  for _ in range(rng.int(1, steps)):
    try:
      snaps = [(v, snapshot(v.obj)) for v in pool]
      _, r = derive(rng, pool, backend, dtype, seen)
    except Skip:
      continue
    rng.note(seen[-1], [(v.out, v.inn) for v in _], "->", r.out, r.inn)
    for v, sn in snaps:
      unchanged(v.obj, sn, seen[-1])
    kind_ok(r)
    pool.append(r)
  # evaluation in any order: no value shares parts with another one
  for i in rng.perm(len(pool)):
    evaluate(rng, pool[i], f"value {i} of {seen}", backend)


@scenario("P20", quick=900, thorough=12000)
def algebra_np(rng):
  _algebra(rng, "numpy", 4)


@scenario("P20", quick=120, thorough=1500, group="tf")
def algebra_tf(rng):
  _algebra(rng, "tensorflow", 3)


@scenario("P20", quick=60, thorough=600, group="jax")
def algebra_jax(rng):
  _algebra(rng, "jax", 3)


@scenario("P20", quick=200, thorough=2000)
def identities(rng):
  """products and traces made only of identities, or mostly"""
  dtype = rng.choice([np.float64, np.complex128])
  s = _space(rng, 1, 2, "numpy")
  D = int(np.prod(s))
  E = lambda: V(qu.identity(s, dtype=dtype), np.eye(D, dtype=dtype).reshape(s + s),
                len(s))
  x = E()
  n = rng.int(1, 4)
  for _ in range(n):
    y = E()
    x = V(x.obj @ y.obj, _mat(x, y), len(s))
  if rng.bool():
    y = leaf(rng, "numpy", dtype, s, ())
    x = V(x.obj @ y.obj, _mat(x, y), len(s))
    if rng.bool():
      z = leaf(rng, "numpy", dtype, (), s)
      x = V(z.obj @ x.obj, _mat(z, x), 0)
  else:
    subs = rng.subset(range(len(s)))
    x = V(x.obj.partial_trace(subs), *_ptrace(x, subs))
  rng.note(s, n)
  evaluate(rng, x, "product of identities", "numpy")


@scenario("P20", quick=150, thorough=1000)
def ignored_edges(rng):
  """dangling edges outside the operator stay, come first and are kept by every
  operation"""
  dtype = rng.choice([np.float64, np.complex128])
  s = _space(rng, 1, 2, "numpy")
  d = rng.int(2, 3)
  a = rng.array(s + s + (d,), dtype)
  n = tn.Node(a)
  k = len(s)
  A = qu.QuOperator([n[i] for i in range(k)], [n[k + i] for i in range(k)],
                    ignore_edges=[n[2 * k]])
  b = leaf(rng, "numpy", dtype, s, ())
  op = rng.choice(["matmul", "adjoint", "trace", "mul", "tensor"])
  rng.note(s, d, op)
  m = np.moveaxis(a, -1, 0)
  if op == "matmul":
    r = A @ b.obj
    want = np.stack([_mat(V(None, x, k), b) for x in m])
  elif op == "adjoint":
    r = A.adjoint()
    want = np.stack([_adj(V(None, x, k))[0] for x in m])
  elif op == "trace":
    r = A.trace()
    want = np.stack([_ptrace(V(None, x, k), list(range(k)))[0] for x in m])
  elif op == "mul":
    r = A * 2.0
    want = 2 * m
  else:
    r = A.tensor_product(b.obj)
    want = np.stack([_tens(V(None, x, k), b)[0] for x in m])
  require(len(r.ignore_edges) == 1, "one ignored edge")
  same(r.eval(), want, f"{op} with an ignored edge")


@scenario("P20", quick=200, thorough=1500)
def refusals(rng):
  dtype = np.float64
  s = _space(rng, 1, 2, "numpy")
  t = tuple(x + 1 for x in s)
  A = leaf(rng, "numpy", dtype, s, s)
  B = leaf(rng, "numpy", dtype, t, s)
  w = s + (1,)
  C = leaf(rng, "numpy", dtype, w, s)
  k = rng.int(0, 9)
  rng.note("refusal", k, s)
  if k == 0:
    raises(ValueError, lambda: A.obj @ B.obj, "product with another dimension")
  elif k == 1:
    raises(ValueError, lambda: A.obj @ C.obj, "product with more subsystems")
  elif k == 2:
    raises(ValueError, lambda: A.obj * B.obj, "product of two operators by *")
  elif k == 3:
    raises(ValueError, lambda: A.obj * np.ones(s), "elementwise * by an array")
  elif k == 4:
    raises(ValueError, lambda: B.obj.trace(), "trace of unequal spaces")
  elif k == 5:
    n = tn.Node(np.ones((2, 2, 2)))
    raises(ValueError, lambda: qu.QuOperator([n[0]], [n[1]]), "forgotten edge")
  elif k == 6:
    n, m = tn.Node(np.ones((2, 2))), tn.Node(np.ones((2, 2)))
    n[1] ^ m[0]
    raises(ValueError, lambda: qu.QuVector([n[0], n[1], m[1]]), "bound edge")
    raises(ValueError, lambda: qu.QuAdjointVector([n[0], n[1], m[1]]), "bound")
    raises(ValueError, lambda: qu.QuVector([n[0]]), "forgotten edge")
  elif k == 7:
    raises(ValueError, lambda: qu.QuScalar([]), "scalar without a node")
  elif k == 8:
    raises(ValueError, lambda: qu.check_spaces(A.obj.out_edges, B.obj.out_edges),
           "dimension mismatch")
    raises(ValueError, lambda: qu.check_spaces(A.obj.out_edges, C.obj.out_edges),
           "number of subsystems")
    require(qu.check_spaces(A.obj.out_edges, A.obj.in_edges) is None, "equal")
  else:
    n = tn.Node(np.ones((2, 2)))
    raises(ValueError, lambda: qu.QuScalar([n]), "scalar with open edges")
  for v in (A, B, C):
    evaluate(rng, v, "operand after a refusal", "numpy")
