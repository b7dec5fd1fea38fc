"""Plain-python oracle for charges and block-sparse tensors: a leg is a list of
charge tuples and a flow; a tensor is a dense array that vanishes wherever the
charges (dualised where the flow is outgoing) do not fuse to the identity."""
import itertools
import numpy as np
from tensornetwork.block_sparse.charge import (BaseCharge, U1Charge, Z2Charge,
                                               ZNCharge)
from tensornetwork.block_sparse.index import Index
from tensornetwork.block_sparse.blocksparsetensor import BlockSparseTensor

Z3, Z4 = ZNCharge(3), ZNCharge(4)
CLS = {"u1": U1Charge, "z2": Z2Charge, "z3": Z3, "z4": Z4}
MOD = {"u1": None, "z2": 2, "z3": 3, "z4": 4}
KINDS = [("u1",), ("u1",), ("z2",), ("z3",), ("z4",), ("u1", "z2"),
         ("u1", "u1"), ("z3", "u1"), ("u1", "z2", "z3"),
         ("u1", "u1", "u1", "z2"), ("z2", "u1", "z3", "u1", "z2")]


def fuse1(k, a, b):
  return a + b if MOD[k] is None else (a + b) % MOD[k]


def dual1(k, a):
  return -a if MOD[k] is None else (-a) % MOD[k]


def fuse(kind, a, b):
  return tuple(fuse1(k, x, y) for k, x, y in zip(kind, a, b))


def dual(kind, a):
  return tuple(dual1(k, x) for k, x in zip(kind, a))


def ident(kind):
  return (0,) * len(kind)


def fuse_lists(kind, lists, flows):
  out = [ident(kind)]
  for l, f in zip(lists, flows):
    out = [fuse(kind, a, dual(kind, b) if f else b) for a in out for b in l]
  return out


def values(rng, kind, n, lo=-2, hi=2):
  return [tuple(rng.int(lo, hi) if MOD[k] is None else rng.int(0, MOD[k] - 1)
                for k in kind) for _ in range(n)]


def plain(charge):
  """BaseCharge -> list of tuples (charges only)"""
  return [tuple(int(x) for x in row) for row in np.asarray(charge.charges)]


def raw(kind, vals, dtype=np.int16):
  """plain storage through the public constructors and @"""
  a = np.array(vals, dtype=dtype).reshape(len(vals), len(kind))
  if len(kind) == 1:
    return CLS[kind[0]](a[:, 0], charge_dtype=dtype)
  out = None
  for i, k in enumerate(kind):
    c = CLS[k](a[:, i], charge_dtype=dtype)
    out = c if out is None else out @ c
  return out


def make(rng, kind, vals, unused=True, dtype=np.int16):
  """The same list of charges in one of several storages."""
  how = rng.int(0, 6)
  n = len(vals)
  if n == 0:
    how = 0
  if how <= 1:
    return raw(kind, vals, dtype)
  if how == 2:
    c = raw(kind, vals, dtype)
    c.unique_charges  # compact in place
    return c
  if how == 3:     # direct constructor, unique values in arbitrary order
    u = rng.shuffled(sorted(set(vals)))
    if unused and rng.bool(0.4):
      extra = [v for v in values(rng, kind, 3) if v not in u]
      for v in extra:
        if v not in u:
          u.insert(rng.int(0, len(u)), v)
    lab = [u.index(v) for v in vals]
    t = raw(kind, u, dtype)
    return type(t)(t.charges, np.array(lab), t.charge_types, dtype)
  if how == 4:     # dual of the dual, compact
    c = raw(kind, [dual(kind, v) for v in vals], dtype)
    c.unique_charges
    return c.dual(True)
  if how == 5:     # selection from a longer charge
    p = rng.perm(n)
    extra = values(rng, kind, 2)
    long = [None] * n
    for i, j in enumerate(p):
      long[j] = vals[i]
    c = raw(kind, long + extra, dtype)
    if rng.bool():
      c.unique_charges
    return c[np.array(p)]
  return make_copy(raw(kind, vals, dtype))


def make_copy(c):
  return c.copy()


class Leg:
  """elementary leg"""

  def __init__(self, kind, vals, flow):
    self.kind, self.vals, self.flow = kind, vals, flow

  @property
  def dim(self):
    return len(self.vals)

  def eff(self):
    return [dual(self.kind, v) for v in self.vals] if self.flow else self.vals

  def conj(self):
    return Leg(self.kind, self.vals, not self.flow)

  def obj(self, rng):
    return make(rng, self.kind, self.vals, unused=False)


def mask(kind, legs):
  """boolean array over the elementary legs: where entries may be non-zero"""
  shape = [l.dim for l in legs]
  m = np.zeros(shape, dtype=bool)
  eff = [l.eff() for l in legs]
  for idx in itertools.product(*map(range, shape)):
    s = ident(kind)
    for l, i in zip(eff, idx):
      s = fuse(kind, s, l[i])
    m[idx] = s == ident(kind)
  return m


class Model:
  """legs grouped into tensor axes + dense array over the axes"""

  def __init__(self, kind, axes, dense):
    self.kind, self.axes, self.dense = kind, axes, np.asarray(dense)

  @property
  def shape(self):
    return tuple(int(np.prod([l.dim for l in a], dtype=int)) for a in self.axes)

  @property
  def legs(self):
    return [l for a in self.axes for l in a]


def leg_like(rng, kind, dim, flow=None):
  """mostly small charges so that blocks are not empty"""
  f = rng.bool() if flow is None else flow
  return Leg(kind, values(rng, kind, dim, -1, 1), f)


def closing_leg(rng, kind, legs, dim):
  """leg whose charges complete entries of the others to the identity"""
  eff = [l.eff() for l in legs]
  f = rng.bool()
  vals = []
  for _ in range(dim):
    q = ident(kind)
    for e in eff:
      q = fuse(kind, q, rng.choice(e))
    vals.append(q if f else dual(kind, q))
  return Leg(kind, vals, f)


def build(rng, kind, axes, dtype=np.float64, data=None):
  """-> (BlockSparseTensor, Model) for the given grouped legs, in one of
  several storage orders (built in another order, then transposed)."""
  legs = [l for a in axes for l in a]
  m = mask(kind, legs)
  flat = rng.array([l.dim for l in legs], dtype) if data is None else data
  flat = np.where(m, flat, 0)
  shape = [int(np.prod([l.dim for l in a], dtype=int)) for a in axes]
  model = Model(kind, axes, flat.reshape(shape))
  how = rng.int(0, 3)
  # grouping by a shape is only determined without unit dimensions
  if len(legs) != len(axes) and any(l.dim == 1 for l in legs):
    how = rng.choice([0, 2])
  if how == 0 or not axes:
    idx = [Index([l.obj(rng) for l in a], [l.flow for l in a]) for a in axes]
    t = BlockSparseTensor.fromdense(idx, model.dense)
    return t, model
  if how == 1:    # elementary tensor, then reshape
    idx = [Index(l.obj(rng), l.flow) for l in legs]
    t = BlockSparseTensor.fromdense(idx, flat)
    if len(legs) != len(axes):
      t = t.reshape(shape)
    return t, model
  # built with permuted axes, then transposed back (how==3: elementary legs)
  if how == 3 and len(legs) > 1:
    p = rng.perm(len(legs))
    idx = [Index(legs[i].obj(rng), legs[i].flow) for i in p]
    t = BlockSparseTensor.fromdense(idx, flat.transpose(p))
    t = t.transpose(np.argsort(p))
    if len(legs) != len(axes):
      t = t.reshape(shape)
    return t, model
  p = rng.perm(len(axes))
  idx = [Index([l.obj(rng) for l in axes[i]], [l.flow for l in axes[i]])
         for i in p]
  t = BlockSparseTensor.fromdense(idx, model.dense.transpose(p))
  return t.transpose(np.argsort(p)), model
