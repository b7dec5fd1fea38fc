"""Executable contracts: P13 (charges), P14 (block-sparse operations), P15
(block-sparse decompositions)."""
import collections
import itertools
import numpy as np
import tensornetwork as tn
import tensornetwork.block_sparse as bs
from tensornetwork.block_sparse import utils, blocksparse_utils as bu
from tensornetwork.block_sparse import charge as ch
from tensornetwork.block_sparse.charge import (BaseCharge, U1Charge, Z2Charge,
                                               fuse_charges, charge_equal,
                                               fuse_ndarray_charges)
from tensornetwork.block_sparse.index import (Index, fuse_indices,
                                              fuse_index_pair)
from tensornetwork.block_sparse.blocksparsetensor import (
    BlockSparseTensor, ChargeArray, outerproduct, tensordot, compare_shapes)
from tensornetwork.block_sparse import linalg as bl
from bounded.core import (scenario, require, same, raises, Violation, Skip)
from bounded.symlib import *


def rows(a):
  return [tuple(int(x) for x in np.atleast_1d(r)) for r in np.asarray(a)]


def check(charge, want, what):
  got = plain(charge)
  require(got == list(want), f"{what}: charges {got} instead of {list(want)}")
  require(len(charge) == len(want) and charge.dim == len(want),
          f"{what}: length {len(charge)}/{charge.dim} instead of {len(want)}")


def draw(rng, n=None, kind=None, dtype=np.int16, unused=True):
  kind = rng.choice(KINDS) if kind is None else kind
  n = rng.int(1, 6) if n is None else n
  v = values(rng, kind, n)
  return kind, v, make(rng, kind, v, unused=unused, dtype=dtype)


# -- P13 -----------------------------------------------------------------------
@scenario("P13", 150, 1500)
def fuse_dual_identity(rng):
  kind, a, A = draw(rng)
  _, b, B = draw(rng, kind=kind)
  rng.note(kind, "a", a, "b", b)
  check(A, a, "construction")
  check(A + B, [fuse(kind, x, y) for x in a for y in b], "fuse")
  check(A.dual(True), [dual(kind, x) for x in a], "dual")
  check(A * True, [dual(kind, x) for x in a], "* True")
  check(A * False, a, "* False")
  check(A.dual(False), a, "dual(False)")
  n = rng.int(1, 3)
  check(A.identity_charges(n), [ident(kind)] * n, "identity_charges")
  I = A.identity_charges(1)
  check(A + I, a, "fuse with the identity")
  check(I + A, a, "identity fused")
  _, c, Cc = draw(rng, kind=kind)
  check((A + B) + Cc, plain(A + (B + Cc)), "associativity")
  s = A + A.dual(True)
  e = plain(s)
  require(all(e[i * len(a) + i] == ident(kind) for i in range(len(a))),
          "charge fused with its dual is not the identity")
  check(A, a, "operand after fusing")
  check(B, b, "operand after fusing")


@scenario("P13", 60, 600)
def product_charges(rng):
  k1, k2 = rng.choice(KINDS), rng.choice(KINDS)
  n = rng.int(1, 5)
  _, a, A = draw(rng, n, k1)
  _, b, B = draw(rng, n, k2)
  rng.note(k1, k2, a, b)
  P = A @ B
  check(P, [x + y for x, y in zip(a, b)], "product")
  kind = k1 + k2
  check(P.dual(True), [dual(kind, x + y) for x, y in zip(a, b)],
        "dual of product")
  _, a2, A2 = draw(rng, 2, k1)
  _, b2, B2 = draw(rng, 2, k2)
  p, p2 = [x + y for x, y in zip(a, b)], [x + y for x, y in zip(a2, b2)]
  check(P + (A2 @ B2), [fuse(kind, x, y) for x in p for y in p2],
        "fuse of products")
  raises(ValueError, lambda: A @ A2 if n != 2 else A @ (A2 + A2),
         "product of different lengths")


def unique_ok(rng, what, got, vals, ri, rv, rc, plainf, first=True):
  if not (ri or rv or rc):
    u = plainf(got)
    rest = []
  else:
    u, rest = plainf(got[0]), list(got[1:])
    require(len(rest) == ri + rv + rc, f"{what}: {len(rest)} extra results")
  require(sorted(u) == sorted(set(vals)), f"{what}: unique values {u} of {vals}")
  if ri:
    idx = [int(i) for i in rest.pop(0)]
    require([vals[i] for i in idx] == u, f"{what}: index {idx} for {u}")
    if first:
      require(idx == [vals.index(x) for x in u],
              f"{what}: index {idx} are not first occurrences")
  if rv:
    inv = [int(i) for i in rest.pop(0)]
    require([u[i] if 0 <= i < len(u) else None for i in inv] == vals,
            f"{what}: inverse {inv} with {u} does not rebuild {vals}")
  if rc:
    cnt = [int(i) for i in rest.pop(0)]
    require(cnt == [vals.count(x) for x in u], f"{what}: counts {cnt} for {u}")


@scenario("P13", 150, 1500)
def unique_charges(rng):
  kind, a, A = draw(rng, rng.int(1, 8))
  ri, rv, rc = rng.bool(), rng.bool(), rng.bool()
  rng.note(kind, a, "index", ri, "inverse", rv, "counts", rc)
  unique_ok(rng, "unique", A.unique(ri, rv, rc), a, ri, rv, rc, plain)
  require(A.num_unique >= len(set(a)), "num_unique")
  check(A, a, "after unique")


@scenario("P13", 150, 1500)
def reduce_to_targets(rng):
  kind, a, A = draw(rng, rng.int(1, 8))
  pool = sorted(set(a + values(rng, kind, 3)))
  t = rng.subset(pool, rng.int(0, len(pool)))
  stride = rng.int(1, 4)
  rng.note(kind, a, "targets", t, "stride", stride)
  T = np.array(t, dtype=np.int16).reshape(len(t), len(kind))
  if len(kind) == 1 and len(t) == 1 and rng.bool():
    T = t[0][0]
  elif len(kind) == 1 and rng.bool():
    T = T[:, 0]
  if rng.bool():
    R, loc = A.reduce(T, return_locations=True, strides=stride)
    require([int(i) for i in loc] == [stride * i for i, x in enumerate(a)
                                      if x in t],
            f"reduce: locations {loc}")
  else:
    R = A.reduce(T)
  check(R, [x for x in a if x in t], "reduce")
  check(A, a, "after reduce")


@scenario("P13", 120, 1200)
def intersect_charges(rng):
  kind, a, A = draw(rng, rng.int(1, 6))
  _, b, B = draw(rng, rng.int(1, 6), kind)
  rng.note(kind, a, b)
  arr = rng.bool(0.3)
  other = np.array(b, dtype=np.int16).reshape(len(b), len(kind)) if arr else B
  if not arr and type(A) is not type(B):
    raise Skip()
  if rng.bool():
    R, i, j = A.intersect(other, return_indices=True)
    r = plain(R)
    require([a.index(x) for x in r] == [int(k) for k in i] and
            [b.index(x) for x in r] == [int(k) for k in j],
            f"intersect: indices {i} {j} for {r} of {a}, {b}")
  else:
    r = plain(A.intersect(other))
  require(sorted(r) == sorted(set(a) & set(b)), f"intersect: {r} of {a}, {b}")


@scenario("P13", 120, 1200)
def select_and_iterate(rng):
  kind, a, A = draw(rng, rng.int(1, 6))
  n = [rng.int(0, len(a) - 1) for _ in range(rng.int(1, 5))]
  rng.note(kind, a, n)
  how = rng.int(0, 3)
  if how == 0:
    check(A[n[0]], [a[n[0]]], "element")
  elif how == 1:
    check(A[n], [a[i] for i in n], "selection")
  elif how == 2:
    check(A[np.array(n)], [a[i] for i in n], "selection")
  else:
    m = np.array([rng.bool() for _ in a])
    if not m.any():
      raise Skip()
    check(A[m], [x for x, k in zip(a, m) if k], "mask selection")
  require([tuple(int(x) for x in c) for c in A] == a, "iteration")
  c = A.copy()
  check(c, a, "copy")
  if c._charges is not None:
    c._charges[...] = 0
  else:
    c._unique_charges[...] = 0
  check(A, a, "original after its copy is overwritten")


@scenario("P13", 150, 1500)
def equality(rng):
  kind, a, A = draw(rng)
  b = list(a) if rng.bool() else values(rng, kind, len(a))
  if rng.bool(0.2):
    i = rng.int(0, len(b) - 1)
    b[i] = values(rng, kind, 1)[0]
  B = make(rng, kind, b)
  rng.note(kind, a, b, "storages", A._charges is None, B._charges is None)
  require(charge_equal(A, B) == (a == b),
          f"charge_equal({a}, {b}) is {charge_equal(A, B)}")
  require(bool(charge_equal(A, A + A.identity_charges(1))),
          "charge_equal of equal lists")
  if rng.bool():
    require(not charge_equal(A, A + A), "charge_equal of different lengths"
            ) if len(a) > 1 else None
  t = [rng.choice(a + values(rng, kind, 1)) for _ in range(rng.int(1, 3))]
  want = np.array([[x == y for y in t] for x in a])
  T = np.array(t, dtype=np.int16).reshape(len(t), len(kind))
  same((A == T).astype(int), want.astype(int), "== array")
  O = make(rng, kind, t)
  if isinstance(O, type(A)):
    same((A == O).astype(int), want.astype(int), "== charge")
  f, g = rng.bool(), rng.bool()
  ia, ib = Index(A, f), Index(B, g)
  require((ia == ib) == (a == b and f == g),
          f"Index equality of {a}/{f} and {b}/{g} is {ia == ib}")
  require(ia == ia.copy(), "an index differs from its copy")
  require((ia == Index(make(rng, kind, a), f)),
          "indices with the same charges and flow are unequal")


@scenario("P13", 150, 1500)
def fused_indices(rng):
  kind = rng.choice(KINDS)
  k = rng.int(1, 4)
  lists = [values(rng, kind, rng.int(1, 4)) for _ in range(k)]
  flows = [rng.bool() for _ in range(k)]
  objs = [make(rng, kind, l) for l in lists]
  rng.note(kind, lists, flows)
  want = fuse_lists(kind, lists, flows)
  check(fuse_charges(objs, flows), want, "fuse_charges")
  idx = [Index(o, f) for o, f in zip(objs, flows)]
  F = fuse_indices(idx)
  require(F.dim == len(want) and len(F) == len(want), f"dim {F.dim}")
  check(F.charges, want, "fuse_indices")
  require([bool(f) for f in F.flat_flows] == flows, "flat_flows")
  G = idx[0]
  for i in idx[1:]:
    G = G * i
  check(G.charges, want, "index product")
  H = F.flip_flow()
  check(H.charges, [dual(kind, x) for x in want], "flip_flow")
  require([bool(f) for f in F.flat_flows] == flows, "flow after flip_flow")
  check(F.copy().charges, want, "index copy")
  raises(ValueError, lambda: fuse_charges(objs, flows + [True]),
         "fuse_charges with too many flows")
  check(fuse_index_pair(idx[0], idx[-1]).charges,
        fuse_lists(kind, [lists[0], lists[-1]], [flows[0], flows[-1]]),
        "fuse_index_pair")


@scenario("P13", 80, 800)
def wide_charges(rng):
  """values and storage beyond 16 bits keep their value"""
  kind = rng.choice([("u1",), ("u1", "u1"), ("u1", "z2"), ("u1", "u1", "u1")])
  n = rng.int(1, 5)
  dt = rng.choice([np.int32, np.int64])
  big = [0, 1, -1, 40000, -40000, 70000, 32767, 32768, -32769, 65536]
  v = lambda m: [tuple(rng.choice(big) if k == "u1" else rng.int(0, 1)
                       for k in kind) for _ in range(m)]
  a, b = v(n), v(rng.int(1, 3))
  A, B = make(rng, kind, a, dtype=dt), make(rng, kind, b, dtype=dt)
  rng.note(kind, dt, a, b)
  check(A, a, "construction")
  check(A + B, [fuse(kind, x, y) for x in a for y in b], "fuse")
  check(A.dual(True), [dual(kind, x) for x in a], "dual")
  check(A.copy(), a, "copy")
  unique_ok(rng, "unique", A.unique(True, True, True), a, 1, 1, 1, plain)
  sel = [rng.int(0, n - 1) for _ in range(2)]
  check(A[np.array(sel)], [a[i] for i in sel], "selection")
  t = rng.subset(sorted(set(a)))
  T = np.array(t, dtype=dt).reshape(len(t), len(kind))
  check(A.reduce(T), [x for x in a if x in t], "reduce")
  if isinstance(B, type(A)):
    require(sorted(plain(A.intersect(B))) == sorted(set(a) & set(b)),
            "intersect")
  check(A @ A, [x + x for x in a], "product")
  check(A + A.identity_charges(1), a, "fuse with the identity")


@scenario("P13", 12, 100)
def large_bookkeeping(rng):
  """legs whose fusion has more than 20000 entries"""
  kind = rng.choice([("u1",), ("z3",), ("u1", "z2")])
  k = rng.int(1, 3)
  n = {1: [20000], 2: [150, 140], 3: [40, 30, 20]}[k]
  dims = [d + rng.int(0, 3) for d in n]
  lists, flows = [], [rng.bool() for _ in range(k)]
  for d in dims:
    v = values(rng, kind, rng.int(2, 4), -1, 1)
    lists.append([v[i] for i in rng.r.randint(0, len(v), size=d)])
  rng.note(kind, dims, flows)
  objs = [make(rng, kind, l, unused=False) for l in lists]
  want = None
  for l, f in zip(lists, flows):
    cnt = collections.Counter(dual(kind, v) if f else v for v in l)
    if want is None:
      want = cnt
      continue
    new = collections.Counter()
    for a, x in want.items():
      for b, y in cnt.items():
        new[fuse(kind, a, b)] += x * y
    want = new
  u, deg = bu.compute_fused_charge_degeneracies(objs, flows)
  require(len(deg) == len(plain(u)) and
          dict(zip(plain(u), [int(x) for x in deg])) == dict(want),
          f"degeneracies {list(zip(plain(u), deg))} instead of {dict(want)}")
  require(int(bu.compute_num_nonzero(objs, flows)) == want[ident(kind)],
          "number of symmetric elements")


@scenario("P13", 4, 12)
def many_unique_charges(rng):
  """more distinct values than a 16-bit label can number"""
  n = 40000
  off = rng.int(-3, 3)
  v = np.arange(n, dtype=np.int32) + off
  A = U1Charge(v, charge_dtype=np.int32)
  u, inv = A.unique(return_inverse=True)
  uv = np.asarray(u.charges)[:, 0]
  require(np.array_equal(uv[np.asarray(inv)], v), "inverse of 40000 values")
  A.unique_charges
  require(np.array_equal(np.asarray(A.charges)[:, 0], v),
          "compact storage of 40000 values")
  R, loc = A.reduce(np.array([35000 + off], dtype=np.int32),
                    return_locations=True)
  require(loc.tolist() == [35000] and plain(R) == [(35000 + off,)],
          "reduce of 40000 values")


@scenario("P13", 150, 1500)
def array_utils(rng):
  dt = rng.choice([np.int8, np.int16, np.int32, np.int64])
  w = rng.int(0, 9)
  n, m = rng.int(1, 8), rng.int(1, 6)
  shape = lambda k: (k, w) if w else (k,)
  a = rng.r.randint(-2, 3, size=shape(n)).astype(dt)
  b = rng.r.randint(-2, 3, size=shape(m)).astype(dt)
  if w > 2:     # raise the chance of common rows
    b[: min(n, m) // 2 + 1][:n] = a[: min(n, m) // 2 + 1][:m]
  rng.note(dt, w, a.tolist(), b.tolist())
  A, B = rows(a), rows(b)
  ri, rv, rc = rng.bool(), rng.bool(), rng.bool()
  unique_ok(rng, "utils.unique", utils.unique(a, ri, rv, rc), A, ri, rv, rc,
            rows)
  if rng.bool():
    r, i, j = utils.intersect(a, b, axis=0, return_indices=True)
    r = rows(r)
    require([A.index(x) for x in r] == [int(k) for k in i] and
            [B.index(x) for x in r] == [int(k) for k in j],
            f"utils.intersect: indices {i} {j} for {r}")
  else:
    r = rows(utils.intersect(a, b, axis=0))
  require(sorted(r) == sorted(set(A) & set(B)), f"utils.intersect: {r}")
  if w:
    q = utils.intersect(np.ascontiguousarray(a.T), np.ascontiguousarray(b.T),
                        axis=1)
    require(sorted(rows(q.T)) == sorted(set(A) & set(B)),
            "utils.intersect axis 1")
  c = utils.collapse(a)
  e = utils.expand(c, a.dtype, w, a.ndim)
  require(np.array_equal(np.asarray(e).reshape(a.shape), a),
          f"expand(collapse(a)) = {np.asarray(e).tolist()}")


@scenario("P13", 100, 1000)
def fusion_utils(rng):
  k = rng.int(1, 4)
  arrs = [[rng.int(-3, 9) for _ in range(rng.int(1, 4))] for _ in range(k)]
  want = [sum(t) for t in itertools.product(*arrs)]
  got = utils.fuse_ndarrays([np.array(x) for x in arrs])
  require([int(x) for x in got] == want, f"fuse_ndarrays({arrs}) = {got}")
  d = [rng.int(1, 4) for _ in range(k)]
  p = rng.perm(k)
  st = [int(np.prod(d[i + 1:], dtype=int)) for i in range(k)]
  require([int(x) for x in utils._get_strides(d)] == st, "strides")
  # strides of the transposed tensor: positions in the original
  got = utils.fuse_stride_arrays([d[i] for i in p], [st[i] for i in p])
  want = np.arange(int(np.prod(d))).reshape(d).transpose(p).ravel()
  require(np.array_equal(got, want), f"fuse_stride_arrays {d} {p}")
  x, y = [rng.int(1, 5) for _ in range(3)], [rng.int(1, 5) for _ in range(2)]
  require([int(i) for i in utils.fuse_degeneracies(x, y)] ==
          [i * j for i in x for j in y], "fuse_degeneracies")
  if k > 1:
    b = int(utils._find_best_partition(d))
    dif = lambda n: abs(int(np.prod(d[:n])) - int(np.prod(d[n:])))
    require(1 <= b < k and dif(b) == min(dif(n) for n in range(1, k)),
            f"_find_best_partition({d}) = {b}")


@scenario("P13", 150, 1500)
def block_bookkeeping(rng):
  """reduce_charges, degeneracies, number of symmetric elements, lookup"""
  kind = rng.choice(KINDS)
  k = rng.int(1, 4)
  lists = [values(rng, kind, rng.int(1, 4), -1, 1) for _ in range(k)]
  flows = [rng.bool() for _ in range(k)]
  objs = [make(rng, kind, l, unused=False) for l in lists]
  rng.note(kind, lists, flows)
  want = fuse_lists(kind, lists, flows)
  u, deg = bu.compute_fused_charge_degeneracies(objs, flows)
  got = dict(zip(plain(u), [int(x) for x in deg]))
  require(got == {x: want.count(x) for x in want} and len(deg) == len(got),
          f"degeneracies {got}")
  require(sorted(plain(bu.compute_unique_fused_charges(objs, flows))) ==
          sorted(set(want)), "unique fused charges")
  require(int(bu.compute_num_nonzero(objs, flows)) == want.count(ident(kind)),
          "number of symmetric elements")
  pool = sorted(set(want + values(rng, kind, 2)))
  t = rng.subset(pool, rng.int(0, len(pool)))
  T = np.array(t, dtype=np.int16).reshape(len(t), len(kind))
  dims = [len(l) for l in lists]
  strides = None
  pos = list(range(len(want)))
  if rng.bool():
    p = rng.perm(k)
    st = [int(np.prod([dims[j] for j in p[i + 1:]], dtype=int))
          for i in range(k)]
    strides = np.array([st[p.index(i)] for i in range(k)], dtype=np.uint32)
    pos = [int(sum(s * int(i) for s, i in zip(strides, idx)))
           for idx in itertools.product(*map(range, dims))]
  R, loc = bu.reduce_charges(objs, flows, T, return_locations=True,
                             strides=strides)
  check(R, [x for x in want if x in t], "reduce_charges")
  require([int(x) for x in loc] == [p for p, x in zip(pos, want) if x in t],
          f"reduce_charges: locations {loc} strides {strides}")
  check(bu.reduce_charges(objs, flows, T), [x for x in want if x in t],
        "reduce_charges")
  tt = sorted(set(t))
  if tt:
    look, uq, lab = bu.compute_sparse_lookup(objs, flows, make(
        rng, kind, tt, unused=False))
    uqp = plain(uq)
    require([uqp[int(i)] for i in look] == [x for x in want if x in t],
            "compute_sparse_lookup")
    require(sorted(uqp[int(i)] for i in lab) == sorted(set(want) & set(t)),
            "compute_sparse_lookup labels")


# -- P14 -----------------------------------------------------------------------
def meta(t, m, what):
  """shape, charges and flows of the tensor describe the model"""
  require(tuple(int(x) for x in t.shape) == m.shape,
          f"{what}: shape {t.shape} instead of {m.shape}")
  require(t.ndim == len(m.axes), f"{what}: ndim {t.ndim}")
  for k, a in enumerate(m.axes):
    cs, fs = t.charges[k], t.flows[k]
    require(len(cs) == len(a) and [bool(f) for f in fs] ==
            [l.flow for l in a] and
            all(plain(c) == list(l.vals) for c, l in zip(cs, a)),
            f"{what}: axis {k} has charges {[plain(c) for c in cs]} flows "
            f"{list(map(bool, fs))} instead of {[(l.vals, l.flow) for l in a]}")
  sp = t.sparse_shape
  require(len(sp) == len(m.axes) and
          all(int(i.dim) == s for i, s in zip(sp, m.shape)) and
          all([bool(f) for f in i.flat_flows] == [l.flow for l in a] and
              [plain(c) for c in i.flat_charges] == [list(l.vals) for l in a]
              for i, a in zip(sp, m.axes)), f"{what}: sparse_shape")
  require([plain(c) for c in t.flat_charges] == [list(l.vals) for l in m.legs]
          and [bool(f) for f in t.flat_flows] == [l.flow for l in m.legs],
          f"{what}: flat charges or flows")
  if m.axes:
    n = sum(1 for _ in np.argwhere(mask(m.kind, m.legs)))
    require(len(t.data) == n, f"{what}: {len(t.data)} stored elements, {n} "
            "symmetric ones")


def agrees(t, m, what):
  require(isinstance(t, BlockSparseTensor), f"{what}: type {type(t).__name__}")
  meta(t, m, what)
  same(t.todense(), m.dense, what)
  require(int(t.size) == m.dense.size, f"{what}: size {t.size}")
  if m.axes:
    t.contiguous()  # whatever it does, it must not change the tensor
    same(t.contiguous().todense(), m.dense, what + ", contiguous")
    meta(t.contiguous(), m, what + ", contiguous")


def grouped(rng, kind, naxes=None, maxlegs=4, hi=3, lo=1):
  naxes = rng.int(1, 3) if naxes is None else naxes
  axes = []
  for k in range(naxes):
    n = rng.choice([2, 2, 3]) if rng.bool(0.25) else 1
    if sum(map(len, axes)) + n > maxlegs:
      n = 1
    axes.append([leg_like(rng, kind, rng.int(lo, hi)) for _ in range(n)])
  legs = [l for a in axes for l in a]
  if len(legs) > 1 and all(l.dim for l in legs) and rng.bool(0.5):
    axes[-1][-1] = closing_leg(rng, kind, legs[:-1], legs[-1].dim)
  return axes


def caching(fn):
  """runs the scenario with and without the block cache"""

  def run(rng):
    on = rng.bool(0.5)
    rng.note("caching", on)
    bs.clear_cache()
    try:
      if on:
        bs.enable_caching()
      fn(rng)
    finally:
      bs.disable_caching()
      bs.clear_cache()

  run.__name__ = fn.__name__
  return run


def show(rng, what, m):
  rng.note(what, m.kind, [[(l.vals, "out" if l.flow else "in") for l in a]
                          for a in m.axes])


def tensor(rng, naxes=None, kind=None, dtype=None, name="t"):
  kind = rng.choice(KINDS) if kind is None else kind
  dtype = rng.dtype() if dtype is None else dtype
  t, m = build(rng, kind, grouped(rng, kind, naxes), dtype)
  show(rng, name, m)
  return t, m


@scenario("P14", 120, 1200)
@caching
def dense_round_trip(rng):
  t, m = tensor(rng)
  agrees(t, m, "construction")
  idx = [Index([l.obj(rng) for l in a], [l.flow for l in a]) for a in m.axes]
  # violating entries are dropped
  noise = rng.array(m.shape, m.dense.dtype)
  f = BlockSparseTensor.fromdense(idx, noise)
  mk = mask(m.kind, m.legs).reshape(m.shape)
  same(f.todense(), np.where(mk, noise, 0), "fromdense")
  c = t.copy()
  agrees(c, m, "copy")
  c.data[...] = 0
  agrees(t, m, "tensor after its copy is overwritten")
  for fn, val in ((bs.ones, 1.0), (bs.zeros, 0.0)):
    z = fn(idx, dtype=m.dense.dtype)
    agrees(z, Model(m.kind, m.axes, np.where(mk, val, 0)), fn.__name__)
  for fn in (bs.ones_like, bs.zeros_like):
    z = fn(t)
    agrees(z, Model(m.kind, m.axes,
                    np.where(mk, 1.0 if fn is bs.ones_like else 0.0, 0)),
           fn.__name__)
    require(z.dtype == t.dtype, f"{fn.__name__}: dtype {z.dtype}")
  for z in (bs.randn(idx, dtype=m.dense.dtype),
            bs.random(idx, (1.0, 2.0), dtype=m.dense.dtype), bs.randn_like(t),
            bs.random_like(t, (1.0, 2.0))):
    d = z.todense()
    require(z.dtype == m.dense.dtype, f"random tensor: dtype {z.dtype}")
    require(np.all(d[~mk] == 0) and np.all(d[mk] != 0),
            "random tensor: support is not the symmetric entries")
    meta(z, Model(m.kind, m.axes, d), "random tensor")
  r = bs.random(idx, (1.0, 2.0), dtype=m.dense.dtype).todense()[mk]
  require(np.all((r.real >= 1) & (r.real < 2)) and
          (r.dtype.kind != "c" or np.all((r.imag >= 1) & (r.imag < 2))),
          "random: outside the boundaries")


@scenario("P14", 12, 150)
@caching
def many_sectors(rng):
  """matrices with many charge sectors, and with more than 20000 entries on one
  side of the partition"""
  kind = ("u1",)
  big = rng.bool(0.3)
  if big:
    d = [150, 2 + rng.int(0, 1), 140]
    legs = [leg_like(rng, kind, x) for x in d]
    perm = [0, 2, 1]
  else:
    n = rng.int(14, 18)
    legs = [Leg(kind, [(int(v),) for v in
                       rng.r.permutation(n + rng.int(0, 2))[:n]], rng.bool())
            for _ in range(2)]
    legs[1].flow = not legs[0].flow
    perm = [1, 0]
  rng.note([(l.vals[:20], l.flow) for l in legs])
  m = mask(kind, legs)
  A = np.where(m, rng.array(m.shape, np.float64), 0)
  t = BlockSparseTensor(A[m], [l.obj(rng) for l in legs],
                        [l.flow for l in legs])
  same(t.todense(), A, "construction")
  P = A.transpose(perm)
  same(t.transpose(perm).contiguous().todense(), P, "transpose")
  same(t.transpose(perm, shuffle=True).todense(), P, "shuffled transpose")
  last = len(legs) - 1
  got = bs.tensordot(t, t.conj(), ([last], [last]))
  if big:
    got = bs.tensordot(t, t.conj(), ([0, 2], [0, 2]))
    same(got.todense(), np.tensordot(A, A, ([0, 2], [0, 2])), "contraction")
  else:
    same(got.todense(), A @ A.T, "contraction")


@scenario("P14", 200, 2000)
@caching
def transpose_reshape(rng):
  t, m = tensor(rng)
  keep = m
  for _ in range(rng.int(1, 4)):
    op = rng.int(0, 3)
    if op == 0:
      p = rng.perm(len(m.axes))
      sh = rng.bool()
      rng.note("transpose", p, "shuffle", sh)
      t2 = bs.transpose(t, p, shuffle=sh) if rng.bool() else t.transpose(p, sh)
      m2 = Model(m.kind, [m.axes[i] for i in p], m.dense.transpose(p))
    elif op == 1:  # regroup consecutive legs
      legs, axes, i = m.legs, [], 0
      while i < len(legs):
        n = rng.int(1, 2)
        axes.append(legs[i:i + n])
        i += n
      shape = [int(np.prod([l.dim for l in a], dtype=int)) for a in axes]
      # the grouping is only determined by the shape without unit dimensions
      if any(l.dim == 1 for l in legs):
        continue
      rng.note("reshape", shape)
      new = shape
      if rng.bool(0.3):
        new = [Index([l.obj(rng) for l in a], [l.flow for l in a])
               for a in axes]
      t2 = t.reshape(new) if rng.bool() else bs.reshape(t, new)
      m2 = Model(m.kind, axes, m.dense.reshape(shape))
    elif op == 2:
      rng.note("contiguous")
      t2, m2 = t.contiguous(), m
    else:
      rng.note("contiguous inplace")
      t = t.copy()
      t2, m2 = t.contiguous(inplace=True), m
      require(t2 is t, "contiguous(inplace) returns another tensor")
      o = [int(i) for i in t.flat_order]
      require(o == sorted(o), "contiguous(inplace) leaves the storage permuted")
    agrees(t2, m2, "result")
    agrees(t, m, "operand")
    t, m = t2, m2
  if t.ndim == 2:
    agrees(t.T, Model(m.kind, m.axes[::-1], m.dense.T), "T")


@scenario("P14", 80, 800)
@caching
def explicit_storage_permutation(rng):
  t, m = tensor(rng)
  n = len(m.legs)
  p = rng.perm(n)
  rng.note("permutation", p)
  u = t.contiguous(p)
  agrees(u, m, "contiguous(permutation)")
  agrees(t, m, "operand")
  require([plain(c) for c in u._charges] ==
          [plain(t._charges[i]) for i in p], "stored leg order")


@scenario("P14", 150, 1500)
@caching
def elementwise(rng):
  t, m = tensor(rng)
  kind = m.kind
  x = rng.choice([2, -0.5, 1.5 + 2j])
  M = lambda d, axes=None: Model(kind, m.axes if axes is None else axes, d)
  agrees(t * x, M(m.dense * x), "*")
  agrees(x * t, M(m.dense * x), "* from the left")
  agrees(t / x, M(m.dense / x), "/")
  agrees(-t, M(-m.dense), "-")
  agrees(t**2, M(m.dense**2), "**")
  cm = M(m.dense.conj(), [[l.conj() for l in a] for a in m.axes])
  agrees(t.conj(), cm, "conj")
  agrees(bs.conj(t), cm, "conj")
  agrees(bs.abs(t), M(abs(m.dense)), "abs")
  if m.dense.dtype.kind != "c":
    agrees(bs.sign(t), M(np.sign(m.dense)), "sign")
  agrees(bs.sqrt(t * (1 + 0j)), M(np.sqrt(m.dense + 0j)), "sqrt")
  same(np.asarray(bs.norm(t)), np.linalg.norm(m.dense), "norm")
  u, mu = build(rng, kind, m.axes, rng.dtype())
  agrees(t + u, M(m.dense + mu.dense), "+")
  agrees(t, m, "left operand after +")
  agrees(u, mu, "right operand after +")
  agrees(u - t, M(mu.dense - m.dense), "-")
  agrees(t, m, "operand after -")
  agrees(u, mu, "operand after -")
  if t.ndim == 2:
    hm = M(m.dense.conj().T, [[l.conj() for l in a] for a in m.axes[::-1]])
    agrees(t.H, hm, "H")
    agrees(t.H @ t, M(m.dense.conj().T @ m.dense, [hm.axes[0], m.axes[1]]),
           "H @")
  for bad in (np.ones(2), t):
    raises(TypeError, lambda: t * bad, "product with a tensor")
    raises(TypeError, lambda: t / bad, "quotient by a tensor")
  raises(TypeError, lambda: t + 1, "sum with a number")
  o, mo = build(rng, kind, [[l.conj() for l in m.axes[0]]] + m.axes[1:],
                np.float64)
  raises(ValueError, lambda: t + o, "sum of tensors with different flows")
  p = rng.perm(len(m.axes))
  if [m.axes[i] for i in p] != m.axes:
    q, mq = build(rng, kind, [m.axes[i] for i in p], np.float64)
    r = t + q.transpose(np.argsort(p))
    agrees(r, M(m.dense + mq.dense.transpose(np.argsort(p))),
           "+ of differently stored tensors")


@scenario("P14", 200, 2000)
@caching
def contraction(rng):
  kind = rng.choice(KINDS)
  ta, ma = tensor(rng, kind=kind, name="a")
  k = rng.int(0, min(3, len(ma.axes)))
  ax1 = rng.perm(len(ma.axes))[:k]
  free = grouped(rng, kind, rng.int(0 if k else 1, 2), 3)
  con = [[l.conj() for l in ma.axes[i]] for i in ax1]
  n2 = len(free) + k
  pos = rng.perm(n2)
  ax2, axes2 = pos[:k], [None] * n2
  for i, c in zip(ax2, con):
    axes2[i] = c
  for i, f in zip(pos[k:], free):
    axes2[i] = f
  tb, mb = build(rng, kind, axes2, rng.dtype())
  show(rng, "b", mb)
  rng.note("axes", ax1, ax2)
  arg = (ax1, ax2)
  if k and ax1 == list(range(len(ma.axes) - k, len(ma.axes))) and \
      ax2 == list(range(k)) and rng.bool():
    arg = k
  for rep in range(2):   # a second time, possibly from the cache
    r = bs.tensordot(ta, tb, arg)
    want = np.tensordot(ma.dense, mb.dense, (ax1, ax2))
    f1 = [a for i, a in enumerate(ma.axes) if i not in ax1]
    f2 = [a for i, a in enumerate(mb.axes) if i not in ax2]
    m = Model(kind, f1 + f2, want)
    if f1 + f2:
      agrees(r, m, "tensordot")
    else:
      require(r.ndim == 0, "inner product is not a scalar")
      same(np.asarray(r.data).reshape(()), want, "inner product")
      same(np.asarray(r.item()), want, "item")
      same(np.asarray(r.todense()).reshape(()), want, "inner product, dense")
    agrees(ta, ma, "first operand")
    agrees(tb, mb, "second operand")
    if len(ma.axes) <= 2 and len(mb.axes) <= 2 and \
        (ax1, ax2) == ([len(ma.axes) - 1], [0]) and f1 + f2:
      agrees(ta @ tb, m, "@")
    # another pair of tensors in between
    if rng.bool():
      oa, om = build(rng, kind, ma.axes, np.float64)
      same(np.asarray(bs.tensordot(oa, oa.conj(), len(om.axes)).item()),
           np.sum(abs(om.dense)**2), "norm of another tensor")
  if k == 0:
    agrees(outerproduct(ta, tb), m, "outerproduct")


@scenario("P14", 60, 500)
def contraction_refused(rng):
  kind = rng.choice(KINDS)
  t, m = tensor(rng, rng.int(1, 3), kind)
  i = rng.int(0, len(m.axes) - 1)
  how = rng.int(0, 3)
  axes = [[l.conj() for l in m.axes[i]]]
  if how == 0:     # flow not conjugated
    axes = [list(m.axes[i])]
  elif how == 1:   # other charges, same dimension
    l = m.axes[i][0]
    v = values(rng, kind, l.dim)
    if v == list(l.vals):
      raise Skip()
    axes[0][0] = Leg(kind, v, not l.flow)
  elif how == 2:   # other dimension
    l = axes[0][0]
    axes[0][0] = Leg(kind, list(l.vals) + values(rng, kind, 1), l.flow)
  u, mu = build(rng, kind, axes + [[leg_like(rng, kind, 2)]], np.float64)
  if how == 3:
    raises(ValueError, lambda: bs.tensordot(t, u, ([0, 1], [0])),
           "axes of different length")
    raises(ValueError, lambda: bs.tensordot(t, u, ([len(m.axes)], [0])),
           "axis out of range")
    raises(ValueError, lambda: bs.tensordot(t, u, ([i], [2])),
           "second axis out of range")
    return
  raises(ValueError, lambda: bs.tensordot(t, u, ([i], [0])),
         f"contraction of incompatible legs ({how})")


@scenario("P14", 120, 1200)
@caching
def traces(rng):
  kind = rng.choice(KINDS)
  free = grouped(rng, kind, rng.int(0, 2), 2)
  n = rng.int(1, 3)
  tr = [leg_like(rng, kind, rng.int(1, 3 if n < 3 else 2)) for _ in range(n)]
  axes = [None] * (len(free) + 2)
  p = rng.perm(len(axes))
  i, j = p[0], p[1]
  axes[i], axes[j] = tr, [l.conj() for l in tr]
  for q, f in zip(sorted(p[2:]), free):
    axes[q] = f
  t, m = build(rng, kind, axes, rng.dtype())
  show(rng, "t", m)
  rng.note("trace", i, j)
  want = np.trace(m.dense, axis1=i, axis2=j)
  if {i, j} == {len(axes) - 2, len(axes) - 1} and rng.bool():
    r = bs.trace(t)
  else:
    r = bs.trace(t, (i, j))
  if free:
    legs = [[l] for a in free for l in a]
    if [a for a in free if len(a) > 1]:
      # axes come back as elementary legs
      same(np.asarray(r.todense()).reshape(want.shape), want, "trace")
    else:
      agrees(r, Model(kind, legs, want), "trace")
  else:
    same(np.asarray(r), want, "trace")
  agrees(t, m, "operand of trace")
  bad, _ = build(rng, kind, [tr, tr], np.float64)
  raises(ValueError, lambda: bs.trace(bad), "trace over equal flows")


@scenario("P14", 100, 1000)
@caching
def diagonals(rng):
  kind = rng.choice(KINDS)
  # matrix -> its symmetric blocks' diagonals
  axes = grouped(rng, kind, 2)
  t, m = build(rng, kind, axes, rng.dtype())
  show(rng, "t", m)
  d = bs.diag(t)
  ro = fuse_lists(kind, [l.vals for l in axes[0]], [l.flow for l in axes[0]])
  co = fuse_lists(kind, [l.vals for l in axes[1]],
                  [not l.flow for l in axes[1]])
  want = []
  for q in set(ro) & set(co):
    ri = [k for k, x in enumerate(ro) if x == q]
    ci = [k for k, x in enumerate(co) if x == q]
    want += [(q, m.dense[a, b]) for a, b in zip(ri, ci)]
  got = list(zip(plain(d._charges[0]), d.data))
  key = lambda x: (x[0], complex(x[1]).real, complex(x[1]).imag)
  got.sort(key=key)
  want.sort(key=key)
  require([g[0] for g in got] == [w[0] for w in want], "diagonal charges")
  same(np.array([g[1] for g in got]), np.array([w[1] for w in want]),
       "diagonal")
  require(isinstance(d, ChargeArray) and not isinstance(d, BlockSparseTensor)
          and d.ndim == 1, "type of the diagonal")
  # vector -> diagonal matrix
  leg = leg_like(rng, kind, rng.int(1, 4))
  v = rng.array((leg.dim,), rng.dtype())
  c = ChargeArray(v, [leg.obj(rng)], [leg.flow])
  same(c.todense(), v, "ChargeArray.todense")
  agrees(bs.diag(c), Model(kind, [[leg], [leg.conj()]], np.diag(v)),
         "diagonal matrix")
  # a vector on a fused leg, stored in another order
  f = [leg_like(rng, kind, rng.int(2, 3)) for _ in range(rng.int(2, 3))]
  v = rng.array(tuple(l.dim for l in f), rng.dtype())
  p = rng.perm(len(f))
  c = ChargeArray(v, [l.obj(rng) for l in f], [l.flow for l in f])
  c = c.transpose(p).reshape((v.size,))
  g = [f[k] for k in p]
  want = np.ravel(v.transpose(p))
  same(c.todense(), want, "fused ChargeArray.todense")
  agrees(bs.diag(c), Model(kind, [g, [l.conj() for l in g]], np.diag(want)),
         "diagonal matrix of a fused leg")
  # identity
  e = leg_like(rng, kind, rng.int(1, 3))
  f = [e] + ([leg_like(rng, kind, 2)] if rng.bool() else [])
  I = bs.eye(Index([l.obj(rng) for l in f], [l.flow for l in f]))
  dim = int(np.prod([l.dim for l in f]))
  agrees(I, Model(kind, [f, [l.conj() for l in f]], np.eye(dim)), "eye")


@scenario("P14", 60, 600)
@caching
def charge_arrays(rng):
  kind = rng.choice(KINDS)
  axes = grouped(rng, kind, rng.int(1, 3))
  idx = [Index([l.obj(rng) for l in a], [l.flow for l in a]) for a in axes]
  A = ChargeArray.random(idx, dtype=rng.dtype())
  shape = [int(np.prod([l.dim for l in a], dtype=int)) for a in axes]
  d = np.array(A.data).reshape(shape)
  same(A.todense(), d, "todense")
  p = rng.perm(len(axes))
  B = A.transpose(p, rng.bool())
  same(B.todense(), d.transpose(p), "transpose")
  same(B.contiguous().todense(), d.transpose(p), "contiguous")
  same(A.conj().todense(), d.conj(), "conj")
  require([bool(f) for f in A.conj().flat_flows] ==
          [not bool(f) for f in A.flat_flows], "flows of conj")
  legs = [l for i in p for l in axes[i]]
  if all(l.dim > 1 for l in legs):
    same(B.reshape([l.dim for l in legs]).todense(),
         d.transpose(p).reshape([l.dim for l in legs]), "reshape")
  if len(axes) == 2:
    same(A.H.todense(), d.conj().T, "H")
  same(bs.sqrt(A).todense(), np.sqrt(d), "sqrt")
  require(int(A.size) == d.size, "size")
  lo = rng.choice([-2.0, 1.0, 3.0])
  r = ChargeArray.random(idx, boundaries=(lo, lo + 0.5), dtype=np.float64)
  require(np.all((r.data >= lo) & (r.data < lo + 0.5)),
          "ChargeArray.random: outside the boundaries")


@scenario("P14", 60, 600)
@caching
def scalars(rng):
  kind = rng.choice(KINDS)
  axes = grouped(rng, kind, rng.int(1, 2), 3)
  t, m = build(rng, kind, axes, rng.dtype())
  u, n = build(rng, kind, [[l.conj() for l in a] for a in axes], rng.dtype())
  show(rng, "t", m)
  all_ = list(range(len(axes)))
  s = bs.tensordot(t, u, (all_, all_))
  want = np.tensordot(m.dense, n.dense, (all_, all_))

  def scalar(x, w, what):
    agrees(x, Model(kind, [], np.asarray(w)), what)
    same(x.item(), w, what + ", item")

  scalar(s, want, "scalar")
  scalar(s + s, 2 * want, "sum of scalars")
  scalar(s - 3 * s, -2 * want, "difference of scalars")
  scalar(-s / 2, -want / 2, "multiple of a scalar")
  scalar(s.conj(), np.conj(want), "conjugate scalar")
  scalar(s.transpose(()), want, "transposed scalar")
  scalar(s.copy(), want, "copied scalar")
  scalar(bs.tensordot(s, s, 0), want * want, "product of scalars")
  agrees(bs.tensordot(s, t, 0), Model(kind, axes, want * m.dense),
         "scalar times tensor")
  agrees(bs.tensordot(t, s, 0), Model(kind, axes, want * m.dense),
         "tensor times scalar")
  # one element tensors are scalars after reshape
  l = leg_like(rng, kind, 1)
  o, om = build(rng, kind, [[l], [l.conj()]], rng.dtype())
  r = o.reshape(())
  scalar(r, om.dense.reshape(()), "reshape to a scalar")
  agrees(bs.tensordot(r, t, 0), Model(kind, axes, om.dense.reshape(()) * m.dense),
         "reshaped scalar times tensor")
  l2 = leg_like(rng, kind, 1)
  o, om = build(rng, kind, [[l], [l2]], rng.dtype())
  scalar(o.reshape([]), om.dense.reshape(()), "reshape of one entry to a scalar")


@scenario("P14", 80, 800)
@caching
def compare(rng):
  t, m = tensor(rng)
  u, mu = build(rng, m.kind, m.axes, np.float64)
  require(compare_shapes(t.contiguous(), u.contiguous()),
          "tensors with the same legs have different shapes")
  o, _ = build(rng, m.kind, [[l.conj() for l in m.axes[0]]] + m.axes[1:],
               np.float64)
  require(not compare_shapes(t.contiguous(), o.contiguous()),
          "conjugated leg not noticed")
  # the comparison is about the legs, not about how the data is stored
  require(compare_shapes(t, u) and compare_shapes(u, t),
          "tensors with the same legs, stored differently, compare unequal")
  require(not compare_shapes(t, o), "conjugated leg not noticed")
  p = rng.perm(t.ndim)
  tp = t.transpose(p)
  key = lambda axes: [[(l.vals, bool(l.flow)) for l in a] for a in axes]
  equal = key([m.axes[i] for i in p]) == key(m.axes)
  require(tp.shape != t.shape or compare_shapes(tp, t) == equal,
          "comparison with a transposed tensor")


@scenario("P14", 100, 800)
def cache_keys(rng):
  """interleaved contractions of look-alike tensors with caching on"""
  bs.clear_cache()
  bs.enable_caching()
  try:
    kinds = [("u1",), ("z2",), ("z3",), ("z4",)]
    dims = [rng.int(1, 2) for _ in range(rng.int(2, 3))]
    base = [[(rng.int(0, 1),) for _ in range(d)] for d in dims]
    for _ in range(4):
      kind = rng.choice(kinds)
      # the same values under another symmetry, or the same bytes split
      # differently between the legs
      vals = base
      if rng.bool(0.5):
        flat = [x for b in base for x in b]
        cut = sorted(rng.subset(range(1, len(flat)), len(base) - 1))
        if len(cut) < len(base) - 1:
          continue
        vals = [flat[i:j] for i, j in zip([0] + cut, cut + [len(flat)])]
      legs = [Leg(kind, v, k % 2 == 1) for k, v in enumerate(vals)]
      t, m = build(rng, kind, [[l] for l in legs], np.float64)
      show(rng, "t", m)
      n = rng.int(1, len(legs))
      ax = rng.perm(len(legs))[:n]
      r = bs.tensordot(t, t.conj(), (ax, ax))
      want = np.tensordot(m.dense, m.dense.conj(), (ax, ax))
      same(np.asarray(r.todense()).reshape(want.shape), want,
           f"tensordot over {ax}")
      p = rng.perm(len(legs))
      same(t.transpose(p, shuffle=True).todense(), m.dense.transpose(p),
           f"shuffled transpose {p}")
  finally:
    bs.disable_caching()
    bs.clear_cache()


@scenario("P14", 120, 1200)
@caching
def symmetric_backend(rng):
  """the symmetric backend's operations"""
  be = tn.backends.backend_factory.get_backend("symmetric")
  kind = rng.choice(KINDS)
  t, m = tensor(rng, kind=kind)
  n = len(m.axes)
  M = lambda d, axes=None: Model(kind, m.axes if axes is None else axes, d)
  agrees(be.transpose(t), M(m.dense.transpose(), m.axes[::-1]), "transpose")
  p = rng.perm(n)
  agrees(be.transpose(t, p), M(m.dense.transpose(p), [m.axes[i] for i in p]),
         "transpose")
  agrees(be.conj(t), M(m.dense.conj(), [[l.conj() for l in a] for a in m.axes]),
         "conj")
  agrees(be.convert_to_tensor(t), m, "convert_to_tensor")
  agrees(be.reshape(t, m.shape), m, "reshape")
  require(tuple(be.shape_tuple(t)) == m.shape, "shape_tuple")
  same(np.asarray(be.shape_prod(be.shape_tensor(t))), np.prod(m.shape),
       "shape_prod")
  same(np.asarray(be.norm(t)), np.linalg.norm(m.dense), "norm")
  agrees(be.sqrt(t * (1 + 0j)), M(np.sqrt(m.dense + 0j)), "sqrt")
  agrees(be.abs(t), M(abs(m.dense)), "abs")
  u, mu = build(rng, kind, m.axes, rng.dtype())
  agrees(be.addition(t, u), M(m.dense + mu.dense), "addition")
  agrees(be.subtraction(t, u), M(m.dense - mu.dense), "subtraction")
  agrees(be.multiply(t, 2.5), M(m.dense * 2.5), "multiply")
  agrees(be.divide(t, 2.5), M(m.dense / 2.5), "divide")
  agrees(be.outer_product(t, u) if len(m.legs) <= 3 else t,
         M(np.tensordot(m.dense, mu.dense, 0), m.axes + mu.axes)
         if len(m.legs) <= 3 else m, "outer_product")
  same(np.asarray(be.item(be.tensordot(t, be.conj(t), (p, p)))),
       np.sum(abs(m.dense)**2), "item")
  if len(m.axes[-1]) == 1:
    # vector along the last axis
    leg = m.axes[-1][0]
    v = rng.array((leg.dim,), rng.dtype())
    c = ChargeArray(v, [leg.obj(rng)], [not leg.flow])
    agrees(be.broadcast_right_multiplication(t, c), M(m.dense * v),
           "broadcast_right_multiplication")
    same(c.todense(), v, "vector unchanged")
  if len(m.axes[0]) == 1:
    leg = m.axes[0][0]
    v = rng.array((leg.dim,), rng.dtype())
    c = ChargeArray(v, [leg.obj(rng)], [leg.flow])
    agrees(be.broadcast_left_multiplication(c, t),
           M(m.dense * v.reshape((-1,) + (1,) * (n - 1))),
           "broadcast_left_multiplication")
  agrees(t, m, "operand")
  # square last two axes
  free = grouped(rng, kind, rng.int(0, 2), 2)
  tr = [leg_like(rng, kind, rng.int(1, 3))]
  x, mx = build(rng, kind, free + [tr, [l.conj() for l in tr]], rng.dtype())
  want = np.trace(mx.dense, axis1=-2, axis2=-1)
  r = be.trace(x)
  d = r.todense() if free else r
  same(np.asarray(d).reshape(want.shape), want, "trace")
  ix = [Index([l.obj(rng) for l in a], [l.flow for l in a]) for a in m.axes]
  dt = rng.dtype()
  agrees(be.zeros(ix, dtype=dt), M(np.zeros(m.shape)), "zeros")
  mk = mask(kind, m.legs).reshape(m.shape)
  agrees(be.ones(ix, dtype=dt), M(mk * 1.0), "ones")
  for f in (be.randn, be.random_uniform):
    r = f(ix, dtype=dt, seed=7)
    require(r.dtype == np.dtype(dt), f"{f.__name__}: dtype {r.dtype}")
    agrees(r, M(np.where(mk, r.todense(), 0)), f.__name__)
    seed = rng.choice([0, 7])
    require(np.array_equal(f(ix, dtype=dt, seed=seed).data,
                           f(ix, dtype=dt, seed=seed).data),
            f"{f.__name__}: not reproducible with the seed {seed}")
  for x in (2.5, 3, 1.5 - 2j, np.float64(0.5)):
    r = be.convert_to_tensor(x)
    require(tuple(be.shape_tuple(r)) == () and be.item(r) == x,
            f"convert_to_tensor({x!r})")
  same(be.eye(ix[0]).todense(), np.eye(m.shape[0]), "eye")
  a2, ma2 = tensor(rng, 2, kind)
  b2, mb2 = build(rng, kind, [[l.conj() for l in ma2.axes[1]],
                              [leg_like(rng, kind, 2)]], np.float64)
  agrees(be.matmul(a2, b2), Model(kind, [ma2.axes[0], mb2.axes[1]],
                                  ma2.dense @ mb2.dense), "matmul")
  same(be.diagonal(a2).data, bs.diag(a2).data, "diagonal")


# -- P15 -----------------------------------------------------------------------
def spectrum_data(rng, kind, axes, npiv, dtype):
  """flat data with interesting spectra: generic, low rank, repeated singular
  values, zero blocks"""
  legs = [l for a in axes for l in a]
  shape = [l.dim for l in legs]
  d = rng.array(shape, dtype)
  how = rng.int(0, 5)
  if how == 0:
    d = np.zeros(shape, dtype)
  elif how == 1:
    d = np.ones(shape, dtype)
  elif how == 2:
    d = np.round(d.real).astype(dtype)
  elif how == 3:     # zero block(s): one effective row charge
    nl = sum(len(a) for a in axes[:npiv])
    m = np.zeros(shape, bool)
    eff = [l.eff() for l in legs[:nl]]
    q = None
    for idx in itertools.product(*map(range, shape[:nl])):
      s = ident(kind)
      for e, i in zip(eff, idx):
        s = fuse(kind, s, e[i])
      q = s if q is None else q
      if s == q:
        m[idx] = True
    d = np.where(m, 0, d)
  return d


def bond_leg(rng, kind, t, axis, what):
  """the new bond of a factor as an elementary leg"""
  cs, fs = t.charges[axis], t.flows[axis]
  require(len(cs) == 1 and len(fs) == 1,
          f"{what}: the new bond consists of {len(cs)} legs")
  return Leg(kind, plain(cs[0]), bool(fs[0]))


def vector_ok(s, vals, what):
  """1d ChargeArray -> its elementary charges"""
  require(s.ndim == 1 and len(s.charges) == 1 and len(s.charges[0]) == 1,
          f"{what}: not a vector")
  q = plain(s.charges[0][0])
  require(len(q) == len(s.data) == s.shape[0], f"{what}: charges and data of "
          f"different lengths {len(q)}, {len(s.data)}")
  if vals is not None:
    same(np.sort(np.asarray(s.data)), np.sort(np.asarray(vals)), what)
  return q


def factor(kind, t, axes, what):
  """charges, shape and conservation of a factor -> its dense form"""
  m = Model(kind, axes, t.todense())
  meta(t, m, what)
  d = np.asarray(t.todense()).reshape([l.dim for l in m.legs])
  require(t.data.dtype.kind in "fc", f"{what}: dtype {t.dtype}")
  same(np.where(mask(kind, m.legs), 0, d), 0 * d, what + " on charge-violating "
       "entries")
  return np.asarray(t.todense()).reshape(m.shape)


def mat(m, npiv):
  sh = m.shape
  return m.dense.reshape(int(np.prod(sh[:npiv], dtype=int)),
                         int(np.prod(sh[npiv:], dtype=int)))


def sectors(m, npiv):
  """dense blocks: list of (row charge, rows, columns)"""
  def eff(axes):
    out = [ident(m.kind)]
    for a in axes:
      for l in a:
        out = [fuse(m.kind, x, y) for x in out for y in l.eff()]
    return out
  r, c = eff(m.axes[:npiv]), [dual(m.kind, x) for x in eff(m.axes[npiv:])]
  return [(q, [i for i, x in enumerate(r) if x == q],
           [i for i, x in enumerate(c) if x == q])
          for q in sorted(set(r) & set(c))]


def block_spectrum(m, npiv):
  d = mat(m, npiv)
  out = []
  for q, r, c in sectors(m, npiv):
    s = np.linalg.svd(d[np.ix_(r, c)], compute_uv=False)
    out += [(float(x), q) for x in s]
  return sorted(out, key=lambda x: -x[0])


def embed(q1, s, q2, what):
  """matrix between two bonds carrying s on the matching positions"""
  qs = vector_ok(s, None, what)
  out = np.zeros((len(q1), len(q2)), dtype=np.asarray(s.data).dtype)
  for q in set(qs):
    a = [i for i, x in enumerate(q1) if x == q]
    b = [i for i, x in enumerate(q2) if x == q]
    k = [i for i, x in enumerate(qs) if x == q]
    require(len(k) <= min(len(a), len(b)), f"{what}: {len(k)} values of charge "
            f"{q} for bonds with {len(a)} and {len(b)}")
    for i, j, l in zip(a, b, k):
      out[i, j] = s.data[l]
  return out


def matrixlike(rng, kind=None, maxlegs=4):
  kind = rng.choice(KINDS) if kind is None else kind
  n = rng.choice([2, 2, 3, 4])
  axes = [[leg_like(rng, kind, rng.int(1, 3 if n > 2 else 5))]
          for _ in range(n)]
  if n == 2 and rng.bool(0.7):  # the same charges on both sides: full blocks
    axes[1] = [axes[0][0].conj()]
  if n < 4 and rng.bool(0.3):
    axes[rng.int(0, n - 1)].append(leg_like(rng, kind, rng.int(1, 2)))
  if rng.bool(0.6):
    axes[-1][-1] = closing_leg(rng, kind, [l for a in axes for l in a][:-1],
                               axes[-1][-1].dim)
  npiv = rng.int(1, n - 1)
  dt = rng.dtype()
  t, m = build(rng, kind, axes, dt, spectrum_data(rng, kind, axes, npiv, dt))
  show(rng, "t", m)
  rng.note("pivot", npiv, "data", m.dense.reshape(-1).tolist()[:40])
  return t, m, npiv


def as_matrix(rng, m, npiv):
  """the same elements as a matrix of grouped legs"""
  axes = [[l for a in m.axes[:npiv] for l in a],
          [l for a in m.axes[npiv:] for l in a]]
  return build(rng, m.kind, axes, m.dense.dtype,
               m.dense.reshape([l.dim for l in m.legs]))


def square(rng, kind=None, herm=False, shift=0.0):
  """matrix whose column index is the conjugate of its row index"""
  kind = rng.choice(KINDS) if kind is None else kind
  row = [leg_like(rng, kind, rng.int(1, 4)) for _ in range(rng.int(1, 2))]
  axes = [row, [l.conj() for l in row]]
  dt = rng.dtype()
  data = spectrum_data(rng, kind, axes, 1, dt)
  n = int(np.prod([l.dim for l in row], dtype=int))
  d = data.reshape(n, n)
  if herm:
    d = d + d.conj().T
  d = d + shift * np.eye(n, dtype=dt)
  t, m = build(rng, kind, axes, dt, d.reshape(data.shape))
  show(rng, "t", m)
  rng.note("data", m.dense.reshape(-1).tolist()[:40])
  return t, m


def eye_of(n):
  return np.eye(n)


@scenario("P15", 200, 2000)
@caching
def matrix_svd(rng):
  t, m, npiv = matrixlike(rng)
  tm, mm = as_matrix(rng, m, npiv)
  want = block_spectrum(mm, 1)
  full = rng.bool()
  u, s, v = bl.svd(tm, full_matrices=full)
  bu_ = bond_leg(rng, m.kind, u, 1, "u")
  bv = bond_leg(rng, m.kind, v, 0, "v")
  U = factor(m.kind, u, [mm.axes[0], [bu_]], "u")
  V = factor(m.kind, v, [[bv], mm.axes[1]], "v")
  same(U.conj().T @ U, eye_of(U.shape[1]), "u is isometric")
  same(V @ V.conj().T, eye_of(V.shape[0]), "v is isometric")
  q = vector_ok(s, [x for x, _ in want], "singular values")
  for val, c in [(float(x), y) for x, y in zip(s.data, q)]:
    require(any(abs(val - w) < 1e-4 and c == (y if not bu_.flow == False else y)
                for w, y in want), f"singular value {val} in sector {c}")
  same(U @ embed(plain(u.charges[1][0]), s, plain(v.charges[0][0]), "svd") @ V,
       mm.dense, "u s v")
  if not full:
    require(q == bu_.vals == bv.vals and bu_.flow != bv.flow,
            "bond charges of u, s, v")
    agrees(u @ bl.diag(s) @ v if len(q) else tm, mm, "u diag(s) v")
  s2 = bl.svd(tm, compute_uv=False)
  vector_ok(s2, [x for x, _ in want], "singular values only")
  agrees(tm, mm, "operand")
  agrees(t, m, "operand")


@scenario("P15", 300, 4000)
@caching
def truncated_svd(rng):
  t, m, npiv = matrixlike(rng)
  be = tn.backends.backend_factory.get_backend("symmetric")
  want = block_spectrum(m, npiv)
  vals = np.array([x for x, _ in want])
  n = len(vals)
  D = rng.choice([None, None, 0, 1, 2, max(n - 1, 1), n, n + 2]) if n else None
  err = None
  if rng.bool():
    err = rng.choice([0.0, 1e-6, 0.1, 0.5, 1.0, 3.0])
  rel = rng.bool()
  if n and rng.bool(0.5):
    # an error bound between two of the possible errors
    te = np.concatenate([[0], np.sqrt(np.cumsum(vals[::-1]**2))])
    i = rng.int(0, n - 1)
    if te[i + 1] - te[i] > 1e-3:
      err = float(te[i] + te[i + 1]) / 2 / (vals[0] if rel else 1)
      D = rng.choice([None, D, n])
  rng.note("max_singular_values", D, "max_truncation_error", err, rel)
  k = n
  if err is not None:
    e = err * (vals[0] if rel and n else 1)
    te = np.sqrt(np.cumsum(vals[::-1]**2))
    if err and any(abs(te - e) < 1e-5 * (1 + e)):
      raise Skip()
    if not err and any((te > 0) & (te < 1e-6)):
      raise Skip()
    k = int(np.count_nonzero(te > e))
  if D is not None:
    k = min(k, D)
  rng.note("spectrum", want, "kept", k)
  if rng.bool() and npiv == len(m.axes) - 1:
    u, s, v, d = be.svd(t, -1, D, err, rel)
  else:
    u, s, v, d = be.svd(t, npiv, D, err, rel)
  require(s.shape[0] == k, f"{s.shape[0]} singular values kept instead of {k}")
  b1 = bond_leg(rng, m.kind, u, u.ndim - 1, "u")
  b2 = bond_leg(rng, m.kind, v, 0, "v")
  q = vector_ok(s, vals[:k], "kept singular values")
  vector_ok(d, vals[k:], "discarded singular values")
  require(q == b1.vals == b2.vals and b1.flow != b2.flow,
          f"bond charges {q} {b1.vals} {b2.vals}")
  nl, nr = mat(m, npiv).shape
  U = factor(m.kind, u, m.axes[:npiv] + [[b1]], "u").reshape(nl, k)
  V = factor(m.kind, v, [[b2]] + m.axes[npiv:], "v").reshape(k, nr)
  same(U.conj().T @ U, eye_of(k), "u is isometric")
  same(V @ V.conj().T, eye_of(k), "v is isometric")
  S = np.diag(np.asarray(s.data)).reshape(k, k)
  resid = mat(m, npiv) - U @ S @ V
  same(np.linalg.norm(resid), np.sqrt(np.sum(vals[k:]**2)),
       "norm of the residual")
  same(U.conj().T @ mat(m, npiv) @ V.conj().T, S, "u^H t v^H = s")
  if k:
    r = bs.tensordot(bs.tensordot(u, bs.diag(s), 1), v, 1)
    same(np.asarray(r.todense()).reshape(resid.shape), U @ S @ V, "u s v")
  agrees(t, m, "operand")


@scenario("P15", 150, 1500)
@caching
def tensor_qr_rq(rng):
  t, m, npiv = matrixlike(rng)
  be = tn.backends.backend_factory.get_backend("symmetric")
  d = mat(m, npiv)
  for rev in (False, True):
    f = be.rq if rev else be.qr
    a, b = f(t, npiv)
    ba = bond_leg(rng, m.kind, a, a.ndim - 1, "first factor")
    bb = bond_leg(rng, m.kind, b, 0, "second factor")
    k = ba.dim
    require(ba.vals == bb.vals and ba.flow != bb.flow, "bond of q and r")
    A = factor(m.kind, a, m.axes[:npiv] + [[ba]], "first factor")
    B = factor(m.kind, b, [[bb]] + m.axes[npiv:], "second factor")
    A, B = A.reshape(d.shape[0], k), B.reshape(k, d.shape[1])
    same(A @ B, d, "rq" if rev else "qr")
    if rev:
      same(B @ B.conj().T, eye_of(k), "q is isometric (rq)")
    else:
      same(A.conj().T @ A, eye_of(k), "q is isometric (qr)")
    want = sum(min(len(r), len(c)) for _, r, c in sectors(m, npiv))
    require(k == want, f"bond dimension {k} instead of {want}")
    agrees(t, m, "operand")
  tm, mm = as_matrix(rng, m, npiv)
  q, r = bl.qr(tm, "complete")
  bq = bond_leg(rng, m.kind, q, 1, "q")
  br = bond_leg(rng, m.kind, r, 0, "r")
  Q = factor(m.kind, q, [mm.axes[0], [bq]], "complete q")
  R = factor(m.kind, r, [[br], mm.axes[1]], "complete r")
  same(Q @ R, mm.dense, "complete qr")
  same(Q.conj().T @ Q, eye_of(Q.shape[1]), "complete q isometric")
  r2 = bl.qr(tm, "r")
  br = bond_leg(rng, m.kind, r2, 0, "r")
  R = factor(m.kind, r2, [[br], mm.axes[1]], "r only")
  same(R.conj().T @ R, mm.dense.conj().T @ mm.dense, "r^H r")
  # every r is triangular within its sector
  for sec, rows_, cols in sectors(mm, 1):
    b = [i for i, x in enumerate(plain(r2.charges[0][0])) if x == sec]
    blk = R[np.ix_(b, cols)]
    same(np.tril(blk, -1), 0 * blk, "r is upper triangular")


@scenario("P15", 150, 1500)
@caching
def eigen(rng):
  t, m = square(rng, herm=True)
  e, v = bl.eigh(t)
  q = vector_ok(e, np.linalg.eigvalsh(m.dense), "eigenvalues (eigh)")
  b = bond_leg(rng, m.kind, v, 1, "v")
  require(b.vals == q, "charges of eigenvalues and vectors")
  V = factor(m.kind, v, [m.axes[0], [b]], "eigenvectors")
  same(m.dense @ V, V * np.asarray(e.data), "eigenvalue equation (eigh)")
  same(V.conj().T @ V, eye_of(V.shape[1]), "eigenvectors are orthonormal")
  require(V.shape == m.shape, "number of eigenvectors")
  agrees(t, m, "operand")
  be = tn.backends.backend_factory.get_backend("symmetric")
  e2, v2 = be.eigh(t)
  same(np.asarray(e2.data), np.asarray(e.data), "backend eigh")
  t, m = square(rng)
  e, v = bl.eig(t)
  q = vector_ok(e, None, "eigenvalues (eig)")
  b = bond_leg(rng, m.kind, v, 1, "v")
  require(b.vals == q, "charges of eigenvalues and vectors")
  V = factor(m.kind, v, [m.axes[0], [b]], "eigenvectors (eig)")
  same(m.dense @ V, V * np.asarray(e.data), "eigenvalue equation (eig)")
  same(np.linalg.norm(V, axis=0), np.ones(V.shape[1]), "normalised")
  same(np.sum(np.asarray(e.data)), np.trace(m.dense), "sum of eigenvalues")
  same(np.sum(np.asarray(e.data)**2), np.trace(m.dense @ m.dense),
       "sum of squared eigenvalues")
  agrees(t, m, "operand")


@scenario("P15", 120, 1200)
@caching
def inverses(rng):
  t, m = square(rng, shift=7.0)
  if m.dense.size and abs(np.linalg.det(m.dense)) > 1e-2:
    i = bl.inv(t)
    im = Model(m.kind, [[l.conj() for l in m.axes[1]],
                        [l.conj() for l in m.axes[0]]],
               np.linalg.inv(m.dense))
    agrees(i, im, "inv")
    agrees(i @ t, Model(m.kind, [im.axes[0], m.axes[1]], np.eye(len(m.dense))),
           "inv(t) t")
    be = tn.backends.backend_factory.get_backend("symmetric")
    agrees(be.inv(t), im, "backend inv")
  agrees(t, m, "operand")
  t, m, npiv = matrixlike(rng)
  tm, mm = as_matrix(rng, m, npiv)
  p = bl.pinv(tm, rcond=1e-5)
  agrees(p, Model(m.kind, [[l.conj() for l in mm.axes[1]],
                           [l.conj() for l in mm.axes[0]]],
                  np.linalg.pinv(mm.dense, rcond=1e-5)), "pinv")
  agrees(tm, mm, "operand")
  agrees(t, m, "operand")


@scenario("P15", 40, 300)
def refused(rng):
  t, m = tensor(rng, rng.choice([1, 3]))
  for f in (bl.svd, bl.qr, bl.eigh, bl.eig):
    raises(NotImplementedError, lambda: f(t), f.__name__ + " of a non-matrix")
  for f in (bl.inv, bl.pinv):
    raises(ValueError, lambda: f(t), f.__name__ + " of a non-matrix")
