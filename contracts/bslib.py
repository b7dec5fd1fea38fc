"""Block-sparse tensors with symbolic elements: the charge structure is
enumerated, the elements are complex indeterminates, so that an identity between
the results holds for all element values."""
import itertools
import zlib
import numpy as np
from tensornetwork.block_sparse.index import Index
from tensornetwork.block_sparse.blocksparsetensor import BlockSparseTensor
from bounded.symlib import (Leg, Model, mask, fuse, dual, ident, raw, plain,
                            fuse_lists)
from contracts.poly import Poly, PARTNER

DOM = {
    ("u1",): [(0,), (1,), (-1,)],
    ("z2",): [(0,), (1,)],
    ("z3",): [(0,), (1,), (2,)],
    ("u1", "z2"): [(0, 0), (1, 1), (-1, 1), (0, 1)],
}


def pick_leg(c, kind, dim, flow=None):
  vals = [c.pick(DOM[kind]) for _ in range(dim)]
  return Leg(kind, vals, c.flag() if flow is None else flow)


def leg_fixed(kind, dim, salt, flow=False):
  """a leg with given charges (where enumerating them would be too much)"""
  dom = DOM[kind]
  return Leg(kind, [dom[(n + salt) % len(dom)] for n in range(dim)], flow)


def elements(c, name, shape):
  """independent complex elements"""
  if c.concrete:
    r = c.rng(name)
    return np.asarray(r.randn(*shape) + 1j * r.randn(*shape))
  a = np.empty(shape, dtype=object)
  for i in np.ndindex(*shape):
    a[i] = Poly.cvar(name + "_" + "_".join(map(str, i)))
  return a


def charge(leg, compact):
  q = raw(leg.kind, leg.vals)
  if compact:
    q.unique_charges  # pylint: disable=pointless-statement
  return q


def stored(kind, axes, dense, perm, compact=False):
  """The tensor with the given axes and dense elements whose data are laid out
  for the elementary legs in the order `perm`."""
  legs = [l for a in axes for l in a]
  flat = dense.reshape([l.dim for l in legs]).transpose(perm)
  sl = [legs[i] for i in perm]
  pos = {i: k for k, i in enumerate(perm)}
  order, n = [], 0
  for a in axes:
    order.append([pos[n + k] for k in range(len(a))])
    n += len(a)
  return BlockSparseTensor(flat[mask(kind, sl)],
                           charges=[charge(l, compact) for l in sl],
                           flows=[l.flow for l in sl], order=order)


def sym(kind, axes, d):
  """the dense array restricted to charge-conserving entries"""
  legs = [l for a in axes for l in a]
  m = mask(kind, legs)
  out = np.where(m, d.reshape(m.shape), 0)
  return out.reshape(tuple(int(np.prod([l.dim for l in a], dtype=int))
                           for a in axes))


def eq(c, got, want):
  got, want = np.asarray(got), np.asarray(want)
  if got.shape != want.shape:
    return False
  if c.concrete:
    return np.allclose(got.astype(complex), want.astype(complex), atol=1e-9)
  return all(Poly.of(x) == Poly.of(y) for x, y in zip(got.ravel(),
                                                      want.ravel()))


def some(c, xs, k, salt):
  """all of xs, or (quick) k of them that vary with the structure"""
  xs = list(xs)
  if c.thorough or k >= len(xs):
    return xs
  h = zlib.crc32(repr(salt).encode())
  return [xs[(h + 7919 * n) % len(xs)] for n in range(k)]


def describe(axes):
  return [[(l.vals, "out" if l.flow else "in") for l in a] for a in axes]


def agree(c, what, t, axes, want, kind):
  """t is the block-sparse form of `want` with the legs `axes`"""
  if not isinstance(t, BlockSparseTensor):
    c.fact(f"{what}: is a block-sparse tensor", False, type(t).__name__)
    return
  legs = [l for a in axes for l in a]
  shape = tuple(int(np.prod([l.dim for l in a], dtype=int)) for a in axes)
  ok = tuple(map(int, t.shape)) == shape and \
      [bool(f) for f in t.flat_flows] == [l.flow for l in legs] and \
      [plain(q) for q in t.flat_charges] == [list(l.vals) for l in legs] and \
      [len(o) for o in t._order] == [len(a) for a in axes]
  if not ok:
    c.fact(f"{what}: shape, charges and flows", ok, f"shape {t.shape}, flows "
           f"{list(t.flat_flows)}, charges {[plain(q) for q in t.flat_charges]}"
           f"; expected {describe(axes)}")
    return
  n = int(mask(kind, legs).sum()) if legs else 1
  if t.data.size != n:
    c.fact(f"{what}: one stored element per symmetric entry", False,
           f"{t.data.size} for {n}; {describe(axes)}")
    return
  d = np.asarray(t.todense())
  same = d.shape == np.shape(want) and int(t.size) == int(np.size(want)) and \
      eq(c, d, want)
  c.fact(f"{what}: legs, stored elements and dense form", same,
         "" if same else f"{describe(axes)}: {str(np.asarray(d).tolist())[:300]}"
         f" instead of {str(np.asarray(want).tolist())[:300]}")


def dot(a, b, axes):
  """np.tensordot without zero-size pitfalls of object arrays"""
  la = list(range(a.ndim))
  i1, i2 = axes
  fa = [i for i in la if i not in i1]
  fb = [i for i in range(b.ndim) if i not in i2]
  out = np.zeros([a.shape[i] for i in fa] + [b.shape[i] for i in fb],
                 dtype=np.result_type(a.dtype, b.dtype))
  for x in np.ndindex(*[a.shape[i] for i in fa]):
    for y in np.ndindex(*[b.shape[i] for i in fb]):
      s = 0
      for k in np.ndindex(*[a.shape[i] for i in i1]):
        p, q = [0] * a.ndim, [0] * b.ndim
        for i, v in zip(fa, x):
          p[i] = v
        for i, v in zip(fb, y):
          q[i] = v
        for i, j, v in zip(i1, i2, k):
          p[i], q[j] = v, v
        u, w = a[tuple(p)], b[tuple(q)]
        if not isinstance(u, Poly) and not u:
          continue
        if not isinstance(w, Poly) and not w:
          continue
        s = s + u * w
      out[x + y] = s
  return out
