"""P14: block-sparse operations against the dense ones, for all element values.
The real block-sparse code runs unmodified on indeterminate elements; charge
structures, flows and storage orders are enumerated."""
import itertools
import numpy as np
import tensornetwork.block_sparse as bs
from tensornetwork.block_sparse.blocksparsetensor import (ChargeArray,
                                                          outerproduct)
from pyvc.contract import contract
from contracts.bslib import *

B_ = "tensornetwork.block_sparse.blocksparsetensor:"
U_ = "tensornetwork.block_sparse.blocksparse_utils:"
L_ = "tensornetwork.block_sparse.linalg:"


def cases(c, quick, thorough):
  return c.pick(quick + (thorough if c.thorough else []))


U1, Z2, Z3, UZ = ("u1",), ("z2",), ("z3",), ("u1", "z2")


def caching(c, f):
  """without the cache, filling it, and reading it"""
  bs.clear_cache()
  out = [f()]
  bs.enable_caching()
  try:
    out += [f(), f()]
  finally:
    bs.disable_caching()
    bs.clear_cache()
  return zip(("", " (filling the cache)", " (from the cache)"), out)


@contract("P14", [B_ + "tensordot", U_ + "_find_diagonal_sparse_blocks",
                  U_ + "_find_transposed_diagonal_sparse_blocks",
                  U_ + "reduce_charges", U_ + "compute_num_nonzero",
                  B_ + "BlockSparseTensor.todense"],
          modes=("bounded",), replay=True, limit=120,
          note="all elements; matrices of all charges in -1..1 (U1), Z2, and Z3, "
          "U1xZ2 (thorough) with dimensions up to two, all flows, both storage "
          "orders, with and without the cache")
def matrix_product(c):
  kind, dims = cases(c, [(U1, (2, 2, 1)), (Z2, (2, 2, 2))],
                     [(U1, (2, 2, 2)), (Z3, (2, 2, 2)), (UZ, (2, 1, 2)),
                      (UZ, (2, 2, 1))])
  i, j, k = (pick_leg(c, kind, d) for d in dims)
  A = sym(kind, [[i], [j]], elements(c, "a", (i.dim, j.dim)))
  Bm = sym(kind, [[j.conj()], [k]], elements(c, "b", (j.dim, k.dim)))
  for p, q in itertools.product([(0, 1), (1, 0)], repeat=2):
    a = stored(kind, [[i], [j]], A, p)
    b = stored(kind, [[j.conj()], [k]], Bm, q, compact=True)
    for how, r in caching(c, lambda: c.value(bs.tensordot, a, b, ([1], [0]))):
      agree(c, "matrix product" + how, r, [[i], [k]], dot(A, Bm, ([1], [0])),
            kind)
    agree(c, "first operand unchanged", a, [[i], [j]], A, kind)
    agree(c, "second operand unchanged", b, [[j.conj()], [k]], Bm, kind)
  c.cover()


@contract("P14", [B_ + "tensordot", U_ + "_find_diagonal_sparse_blocks",
                  U_ + "_find_transposed_diagonal_sparse_blocks"],
          modes=("bounded",), replay=True, limit=120,
          note="all elements; two matrices with 14 to 17 charge sectors, charges "
          "in permuted order and one of them twice")
def many_blocks(c):
  n = c.pick([14, 15, 16, 17] if c.thorough else [16, 17])
  vals = [[((k * s + 1) % 17,) for k in range(n)] + [(1,)] for s in (3, 5, 7)]
  f = [c.flag() for _ in range(2)]
  i, j = Leg(U1, vals[0], f[0]), Leg(U1, vals[1], not f[0])
  k = Leg(U1, [(-x,) for x, in vals[2]] if f[1] == (not f[0]) else vals[2],
          f[1])
  A = sym(U1, [[i], [j]], elements(c, "a", (i.dim, j.dim)))
  Bm = sym(U1, [[j.conj()], [k]], elements(c, "b", (j.dim, k.dim)))
  for p, q in [((0, 1), (0, 1)), ((1, 0), (1, 0)), ((1, 0), (0, 1))]:
    a = stored(U1, [[i], [j]], A, p)
    b = stored(U1, [[j.conj()], [k]], Bm, q, compact=True)
    agree(c, "transpose", c.value(a.transpose, (1, 0), True), [[j], [i]], A.T,
          U1)
    r = c.value(bs.tensordot, a, b, ([1], [0]))
    agree(c, "product of many blocks", r, [[i], [k]], dot(A, Bm, ([1], [0])),
          U1)
  c.cover()


@contract("P14", [B_ + "tensordot", B_ + "BlockSparseTensor.contiguous",
                  U_ + "_find_transposed_diagonal_sparse_blocks"],
          modes=("bounded",), replay=True, limit=200,
          note="all elements; three-leg tensors with all charges, flows, storage "
          "orders and choices of contracted legs, dimensions up to two")
def tensor_product(c):
  kind, dims = cases(c, [(Z2, (2, 1, 2, 1)), (U1, (2, 1, 1, 1))],
                     [(Z2, (2, 2, 2, 2)), (U1, (2, 1, 2, 1)),
                      (Z3, (2, 2, 1, 1)), (UZ, (2, 1, 1, 1))])
  legs = [pick_leg(c, kind, d) for d in dims[:3]]
  l = pick_leg(c, kind, dims[3])
  A = sym(kind, [[x] for x in legs], elements(c, "a", dims[:3]))
  perms = list(itertools.permutations(range(3)))
  key = describe([legs, [l]])
  for n in (1, 2, 3):
    for ax in some(c, itertools.permutations(range(3), n), 1, key):
      bl = [[legs[x].conj()] for x in ax] + [[l]]
      Bm = sym(kind, bl, elements(c, "b", tuple(x[0].dim for x in bl)))
      free = [[legs[x]] for x in range(3) if x not in ax] + [[l]]
      want = dot(A, Bm, (ax, tuple(range(n))))
      # storage orders: every order of the first with a varying second
      for s, p in enumerate(some(c, perms, 2, (key, n))):
        q = list(itertools.permutations(range(n + 1)))
        a = stored(kind, [[x] for x in legs], A, p)
        b = stored(kind, bl, Bm, q[(s * 5 + len(ax)) % len(q)])
        r = c.value(bs.tensordot, a, b, (list(ax), list(range(n))))
        agree(c, f"contraction over {n} legs", r, free, want, kind)
  c.cover()


@contract("P14", [B_ + "ChargeArray.transpose", B_ + "ChargeArray.reshape",
                  B_ + "BlockSparseTensor.contiguous", B_ + "ChargeArray.conj",
                  B_ + "BlockSparseTensor.__add__",
                  B_ + "BlockSparseTensor.__mul__", U_ +
                  "_find_transposed_diagonal_sparse_blocks"],
          modes=("bounded",), replay=True, limit=200,
          note="all elements; three-leg tensors with all charges, flows and "
          "storage orders, dimensions up to two")
def layout(c):
  kind, dims = cases(c, [(Z2, (2, 1, 2)), (U1, (2, 2, 1))],
                     [(Z2, (2, 2, 2)), (U1, (2, 2, 2)), (Z3, (2, 1, 2)),
                      (UZ, (2, 1, 1))])
  legs = [pick_leg(c, kind, d) for d in dims]
  axes = [[x] for x in legs]
  A = sym(kind, axes, elements(c, "a", dims))
  A2 = sym(kind, axes, elements(c, "b", dims))
  key = describe(axes)
  for p in some(c, itertools.permutations(range(3)), 2, key):
    a = stored(kind, axes, A, p)
    agree(c, "construction", a, axes, A, kind)
    agree(c, "contiguous", a.contiguous(), axes, A, kind)
    for q in some(c, itertools.permutations(range(3)), 2, (key, p)):
      t = c.value(a.transpose, q)
      ta, tA = [axes[k] for k in q], A.transpose(q)
      agree(c, "transpose", t, ta, tA, kind)
      agree(c, "transpose, contiguous", c.value(t.contiguous), ta, tA, kind)
      agree(c, "transpose with shuffle", c.value(a.transpose, q, True), ta, tA,
            kind)
    # element order of the merged legs
    for grp in some(c, ((2, 1), (1, 2), (3,)), 2, (key, p)):
      ga, k = [], 0
      for g in grp:
        ga.append(legs[k:k + g])
        k += g
      sh = tuple(int(np.prod([l.dim for l in g])) for g in ga)
      g = stored(kind, ga, A, p)
      agree(c, "merged legs", g, ga, A.reshape(sh), kind)
      agree(c, "merged legs, contiguous", g.contiguous(), ga, A.reshape(sh),
            kind)
      agree(c, "split legs", c.value(g.reshape, dims), axes, A, kind)
      if len(grp) == 2:
        t = g.transpose((1, 0))
        agree(c, "merged legs, transpose, contiguous", t.contiguous(),
              ga[::-1], A.reshape(sh).T, kind)
    if p[0] == 0 or c.thorough:
      ca = [[l.conj()] for l in legs]
      agree(c, "conj", c.value(a.conj), ca, np.conj(A), kind)
      agree(c, "scaled", c.value(lambda: a * 3), axes, A * 3, kind)
      agree(c, "negative", -a, axes, -A, kind)
      for p2 in some(c, itertools.permutations(range(3)), 1, (key, p, 1)):
        b = stored(kind, axes, A2, p2)
        agree(c, "sum", c.value(lambda: a + b), axes, A + A2, kind)
        agree(c, "difference", c.value(lambda: a - b), axes, A - A2, kind)
        agree(c, "left operand", a, axes, A, kind)
        agree(c, "right operand", b, axes, A2, kind)
  c.cover()


@contract("P14", [L_ + "trace", L_ + "eye"], modes=("bounded",), replay=True,
          limit=120, note="all elements; traces over two legs or two pairs of "
          "legs, every position, dimensions up to two")
def traces(c):
  kind, dims = cases(c, [(Z2, (2, 2)), (U1, (2, 1)), (U1, (1, 2))],
                     [(U1, (2, 2)), (Z3, (2, 2)), (UZ, (2, 1))])
  t, f = pick_leg(c, kind, dims[0]), pick_leg(c, kind, dims[1])
  g = pick_leg(c, kind, 1)
  src = [t, t.conj(), f, g]
  for pos in itertools.permutations(range(4)):
    if pos.index(0) > pos.index(1) and not c.thorough:
      continue
    legs = [src[k] for k in pos]
    axes = [[l] for l in legs]
    A = sym(kind, axes, elements(c, "a", tuple(l.dim for l in legs)))
    i, j = pos.index(0), pos.index(1)
    free = [axes[k] for k in range(4) if k not in (i, j)]
    st = list(itertools.permutations(range(4)))[(7 * i + 5 * j) % 24]
    a = stored(kind, axes, A, st)
    agree(c, "trace", c.value(bs.trace, a, (i, j)), free,
          tr(A, i, j), kind)
    agree(c, "operand of the trace", a, axes, A, kind)
  # both legs of merged axes
  axes = [[t, f], [t.conj(), f.conj()]]
  A = sym(kind, axes, elements(c, "m", (t.dim * f.dim,) * 2))
  for st in ((0, 1, 2, 3), (3, 1, 0, 2), (1, 0, 2, 3)):
    r = c.value(bs.trace, stored(kind, axes, A, st))
    c.fact("full trace", eq(c, np.asarray(r).reshape(()), tr(A, 0, 1)),
           describe(axes))
  c.cover()


@contract("P14", [L_ + "trace"], modes=("bounded",), replay=True, limit=60,
          note="all elements; three merged legs, dimensions up to two")
def traces_of_merged_legs(c):
  """three merged legs, paired in their order whatever their lengths"""
  kind, ds = cases(c, [(Z2, (1, 2, 1)), (U1, (2, 1, 1)), (U1, (1, 2, 1))],
                   [(Z3, (2, 1, 2)), (U1, (2, 2, 1)), (UZ, (1, 1, 2))])
  ls = [pick_leg(c, kind, d) for d in ds]
  axes = [ls, [l.conj() for l in ls]]
  d = ds[0] * ds[1] * ds[2]
  A = sym(kind, axes, elements(c, "n", (d, d)))
  for st in ((0, 1, 2, 3, 4, 5), (1, 2, 0, 5, 3, 4), (5, 0, 4, 1, 3, 2)):
    r = c.value(bs.trace, stored(kind, axes, A, st))
    c.fact("full trace of three merged legs",
           eq(c, np.asarray(r).reshape(()), tr(A, 0, 1)), describe(axes))
  c.cover()


@contract("P14", [B_ + "outerproduct", L_ + "tensordot"], modes=("bounded",),
          replay=True, limit=60, note="all elements; dimensions up to two")
def scalars(c):
  """tensors without legs"""
  kind, dims = cases(c, [(Z2, (2, 1)), (U1, (1, 2))],
                     [(U1, (2, 2)), (UZ, (1, 2)), (Z3, (2, 2))])
  i, j = (pick_leg(c, kind, d) for d in dims)
  axes = [[i], [j]]
  dual_axes = [[i.conj()], [j.conj()]]
  A = sym(kind, axes, elements(c, "a", (i.dim, j.dim)))
  B = sym(kind, dual_axes, elements(c, "b", (i.dim, j.dim)))
  if not mask(kind, [i, j]).any():
    # numpy's product of empty arrays of objects is not an array
    c.cover()
    return
  for p in ((0, 1), (1, 0)):
    a, b = stored(kind, axes, A, p), stored(kind, dual_axes, B, p[::-1])
    s = c.value(bs.tensordot, a, b, ([0, 1], [0, 1]))
    S = np.asarray(dot(A, B, ((0, 1), (0, 1))))
    if S.dtype != object and not c.concrete:
      S = S.astype(object)
    agree(c, "full contraction", s, [], S, kind)
    agree(c, "sum of scalars", c.value(lambda: s + s), [], S + S, kind)
    agree(c, "difference of scalars", c.value(lambda: s - s * 3), [],
          S - S * 3, kind)
    agree(c, "transposed scalar", c.value(lambda: s.transpose(())), [], S, kind)
    agree(c, "copied scalar", c.value(s.copy), [], S, kind)
    agree(c, "product of scalars", c.value(bs.tensordot, s, s, 0), [], S * S,
          kind)
    agree(c, "scalar times tensor", c.value(bs.tensordot, s, a, 0), axes,
          S * A, kind)
    agree(c, "tensor times scalar", c.value(bs.tensordot, a, s, 0), axes,
          A * S, kind)
  # one entry
  k, l = leg_fixed(kind, 1, 1), leg_fixed(kind, 1, 1, True)
  O = sym(kind, [[k], [l]], elements(c, "o", (1, 1)))
  r = c.value(lambda: stored(kind, [[k], [l]], O, (0, 1)).reshape(()))
  agree(c, "one entry without its legs", r, [], O.reshape(()), kind)
  a = stored(kind, axes, A, (0, 1))
  agree(c, "it times a tensor", c.value(bs.tensordot, r, a, 0), axes,
        O.reshape(()) * A, kind)
  c.cover()


def tr(A, i, j):
  A = np.moveaxis(A, (i, j), (0, 1))
  out = np.zeros(A.shape[2:], dtype=A.dtype)
  for k in range(A.shape[0]):
    out = out + A[k, k]
  return out


@contract("P14", [B_ + "outerproduct", L_ + "diag", L_ + "eye",
                  U_ + "compute_sparse_lookup"], modes=("bounded",),
          replay=True, limit=120, note="all elements; dimensions up to two")
def outer_and_diagonal(c):
  kind, dims = cases(c, [(Z2, (2, 2, 2)), (U1, (2, 1, 1))],
                     [(U1, (2, 2, 1)), (Z3, (2, 1, 2)), (UZ, (2, 1, 1))])
  i, j, k = (pick_leg(c, kind, d) for d in dims)
  A = sym(kind, [[i], [j]], elements(c, "a", (i.dim, j.dim)))
  V = sym(kind, [[k]], elements(c, "v", (k.dim,)))
  W = sym(kind, [[j], [k]], elements(c, "w", (j.dim, k.dim)))
  for p in ((0, 1), (1, 0)):
    a = stored(kind, [[i], [j]], A, p)
    v = stored(kind, [[k]], V, (0,), True)
    w = stored(kind, [[j], [k]], W, p[::-1])
    agree(c, "outer product", c.value(outerproduct, a, v), [[i], [j], [k]],
          dot(A, V, ((), ())), kind)
    agree(c, "outer product", c.value(outerproduct, v, a), [[k], [i], [j]],
          dot(V, A, ((), ())), kind)
    agree(c, "outer product", c.value(bs.tensordot, w, a, 0),
          [[j], [k], [i], [j]], dot(W, A, ((), ())), kind)
    # diagonal of every sector
    d = c.value(bs.diag, a)
    re = i.eff()
    ce = [dual(kind, x) for x in j.eff()]
    want = []
    for q in sorted(set(re) & set(ce)):
      want += [(q, A[x, y]) for x, y in zip(
          [n for n, x in enumerate(re) if x == q],
          [n for n, x in enumerate(ce) if x == q])]
    got = list(zip(plain(d._charges[0]), d.data))
    ok = len(got) == len(want)
    for q in {x for x, _ in want}:
      u = [y for x, y in got if x == q]
      z_ = [y for x, y in want if x == q]
      ok = ok and len(u) == len(z_) and all(
          eq(c, np.array(x, dtype=object), np.array(y, dtype=object))
          for x, y in zip(u, z_))
    c.fact("diagonal of every sector", ok, f"{got} instead of {want}"[:400])
  x = elements(c, "x", (i.dim,))
  for compact in (False, True):
    ca = ChargeArray(x, [charge(i, compact)], [i.flow])
    D = np.zeros((i.dim, i.dim), dtype=x.dtype)
    for n in range(i.dim):
      D[n, n] = x[n]
    agree(c, "diagonal matrix", c.value(bs.diag, ca), [[i], [i.conj()]], D, kind)
  # of a vector along merged legs
  x = elements(c, "y", (i.dim * k.dim,))
  ca = ChargeArray(x, [charge(i, False), charge(k, True)], [i.flow, k.flow],
                   order=[[0, 1]])
  D = np.zeros((x.size, x.size), dtype=x.dtype)
  for n in range(x.size):
    D[n, n] = x[n]
  agree(c, "diagonal matrix of merged legs", c.value(bs.diag, ca),
        [[i, k], [i.conj(), k.conj()]], D, kind)
  e = c.value(bs.eye, bs.Index([charge(i, False), charge(j, True)],
                               [i.flow, j.flow]))
  agree(c, "identity", e, [[i, j], [i.conj(), j.conj()]],
        np.eye(i.dim * j.dim), kind)
  c.cover()


class Fun(Poly):
  """an element on which sqrt and abs are uninterpreted functions"""
  __slots__ = ()

  def sqrt(self):
    return Poly.cvar(f"sqrt<{self!r}>")

  def __abs__(self):
    return Poly.cvar(f"abs<{self!r}>")


def funs(c, a):
  if c.concrete:
    return a
  out = np.empty(a.shape, dtype=object)
  for i in np.ndindex(*a.shape):
    out[i] = Fun(Poly.of(a[i]).m) if Poly.of(a[i]).m else 0
  return out


def on_entries(c, name, f, a):
  """f at every entry; f(0) = 0"""
  if c.concrete:
    return f(a)
  out = np.empty(a.shape, dtype=object)
  for i in np.ndindex(*a.shape):
    out[i] = Poly.cvar(f"{name}<{a[i]!r}>") if Poly.of(a[i]).m else 0
  return out


def arrangement(c):
  """a tensor in one of its storage orders, possibly with merged legs"""
  kind, dims = cases(c, [(Z2, (2, 1, 2)), (U1, (2, 2, 1)), (Z3, (1, 2))],
                     [(Z2, (2, 2, 2)), (U1, (2, 2, 2)), (Z3, (2, 1, 2)),
                      (UZ, (2, 1, 1)), (UZ, (2, 2))])
  legs = [pick_leg(c, kind, d) for d in dims]
  group = c.pick([(1,) * len(dims), (len(dims) - 1, 1)])
  axes, k = [], 0
  for g in group:
    axes.append(legs[k:k + g])
    k += g
  A = sym(kind, [[l] for l in legs], elements(c, "a", dims))
  shape = tuple(int(np.prod([l.dim for l in a])) for a in axes)
  perms = some(c, itertools.permutations(range(len(dims))), 1,
               describe(axes))
  return kind, axes, A.reshape(shape), perms


@contract("P14", [B_ + "BlockSparseTensor." + n for n in (
    "__mul__", "__rmul__", "__truediv__", "__pow__", "__neg__", "copy", "T",
    "conj")] + [B_ + "ChargeArray.H"] +
    [L_ + n for n in ("sqrt", "abs", "conj", "transpose", "reshape")],
          modes=("bounded",), replay=True, limit=90,
          note="all elements, sqrt and abs uninterpreted; tensors of rank two "
          "and three in one storage order (all in thorough), merged legs")
def elementwise(c):
  kind, axes, A, perms = arrangement(c)
  con = [[l.conj() for l in a] for a in axes]
  for p in perms:
    a = stored(kind, axes, A, p)
    for what, f, want in [("product with a number", lambda: a * 3, A * 3),
                          ("number times", lambda: 3 * a, A * 3),
                          ("quotient", lambda: a / 4, A / 4),
                          ("square", lambda: a**2, A * A),
                          ("negative", lambda: -a, -A)]:
      agree(c, what, c.value(f), axes, want, kind)
      agree(c, what + ": operand", a, axes, A, kind)
    b = stored(kind, axes, funs(c, A), p)
    root = c.value(lambda: bs.sqrt(b))
    agree(c, "square root", root, axes, on_entries(c, "sqrt", np.sqrt, A),
          kind)
    agree(c, "absolute values", c.value(lambda: bs.abs(b)), axes,
          on_entries(c, "abs", np.abs, A), kind)
    agree(c, "sqrt and abs: operand", b, axes, A, kind)
    for r in (c.value(a.conj), c.value(lambda: bs.conj(a))):
      agree(c, "conj", r, con, np.conj(A), kind)
    q = tuple(range(1, len(axes))) + (0,)
    agree(c, "linalg.transpose", c.value(lambda: bs.transpose(a, q)),
          [axes[k] for k in q], A.transpose(q), kind)
    flat = [[l] for x in axes for l in x]
    sh = tuple(l.dim for x in axes for l in x)
    agree(c, "linalg.reshape", c.value(lambda: bs.reshape(a, sh)), flat,
          A.reshape(sh), kind)
    if len(axes) == 2:
      agree(c, "T", c.value(lambda: a.T), axes[::-1], A.T, kind)
      agree(c, "H", c.value(lambda: a.H), con[::-1], np.conj(A).T, kind)
    # a copy is independent of its original
    d = c.value(a.copy)
    agree(c, "copy", d, axes, A, kind)
    agree(c, "copy with reordered storage",
          d.contiguous(list(range(len(sh)))[::-1]), axes, A, kind)
    d.data[...] = 7
    d.contiguous(list(range(len(sh)))[::-1], inplace=True)
    agree(c, "original of a copy", a, axes, A, kind)
  c.cover()


@contract("P14", [B_ + "BlockSparseTensor.fromdense",
                  B_ + "BlockSparseTensor.ones", B_ + "BlockSparseTensor.zeros",
                  U_ + "_data_initializer", U_ + "get_flat_meta_data",
                  U_ + "compute_num_nonzero", L_ + "norm", L_ + "sign",
                  B_ + "ChargeArray.sparse_shape", B_ + "ChargeArray.charges",
                  B_ + "ChargeArray.flows"] +
          ["tensornetwork.block_sparse.initialization:" + n for n in (
              "ones", "zeros", "randn", "random", "ones_like", "zeros_like",
              "randn_like", "random_like", "empty_like")],
          modes=("bounded",), replay=True, limit=90,
          note="all elements of fromdense; constants, shapes, charges, flows "
          "and ranges of the initialisers; rank two and three, merged legs")
def creation(c):
  kind, axes, A, perms = arrangement(c)
  legs = [l for a in axes for l in a]
  inds = [Index([charge(l, True) for l in a], [l.flow for l in a])
          for a in axes]
  dense = elements(c, "d", A.shape)
  one = sym(kind, axes, np.ones(A.shape))
  made = c.value(lambda: bs.BlockSparseTensor.fromdense(inds, dense))
  agree(c, "from a dense array", made, axes, sym(kind, axes, dense), kind)
  for x, a, i in zip(made.sparse_shape, axes, inds):
    c.fact("sparse shape: the index of every axis", x == i,
           f"{x} for {describe([a])}")
  c.fact("charges and flows of every axis",
         [[plain(q) for q in x] for x in made.charges] ==
         [[list(l.vals) for l in a] for a in axes] and
         [list(map(bool, x)) for x in made.flows] ==
         [[l.flow for l in a] for a in axes], "")
  for dt in (np.float64, np.complex64):
    for what, f, want in [("ones", bs.ones, one), ("zeros", bs.zeros, 0 * one)]:
      t = c.value(lambda: f(inds, dtype=dt))
      c.fact(f"{what}: dtype", t.dtype == dt, str(t.dtype))
      agree(c, what, t, axes, want, kind)
    for what, f in [("randn", bs.randn), ("random", bs.random)]:
      t = c.value(lambda: f(inds, dtype=dt))
      c.fact(f"{what}: dtype", t.dtype == dt, str(t.dtype))
      c.fact(f"{what}: elements differ",
             len(set(t.data.tolist())) == t.data.size, str(t.data))
      if dt is np.complex64:
        c.fact(f"{what}: imaginary parts",
               bool(np.all(np.imag(t.data) != 0)), str(t.data))
      t.data = np.ones(t.data.size)
      agree(c, what, t, axes, one, kind)
  t = c.value(lambda: bs.random(inds, boundaries=(2.0, 3.0), dtype=np.float64))
  c.fact("random: elements within the boundaries",
         bool(np.all((t.data >= 2) & (t.data <= 3))), str(t.data))
  for p in perms:
    z = stored(kind, axes, np.linspace(-1, 1, A.size).reshape(A.shape), p)
    want = sym(kind, axes, np.linspace(-1, 1, A.size).reshape(A.shape))
    n = c.value(lambda: bs.norm(z))
    c.fact("norm", abs(n - np.linalg.norm(want)) < 1e-12, str(n))
    agree(c, "sign", c.value(lambda: bs.sign(z)), axes, np.sign(want), kind)
    for what, f, w in [("ones_like", bs.ones_like, one),
                       ("zeros_like", bs.zeros_like, 0 * one)]:
      agree(c, what, c.value(lambda: f(z)), axes, w, kind)
    for what, f in [("randn_like", bs.randn_like),
                    ("random_like", bs.random_like),
                    ("empty_like", bs.empty_like)]:
      t = c.value(lambda: f(z))
      t.data[...] = 1.0
      agree(c, what, t, axes, one, kind)
    agree(c, "like: argument", z, axes, want, kind)
  c.cover()
