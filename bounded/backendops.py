"""Executable contracts: P05 (decompositions), P18 (elementary backend ops)."""
import operator
import numpy as np
import tensornetwork as tn
from tensornetwork.backends import backend_factory
from tensornetwork import linalg  # noqa: F401
import tensornetwork.linalg.linalg as tl
import tensornetwork.linalg.operations as to
import tensornetwork.linalg.node_linalg as nl
import tensornetwork.linalg.initialization as ti
from bounded.core import (scenario, require, same, raises, Violation, Skip, tonp)
from bounded.graphlib import check_wf, value, snapshot

NAMES = {"np": "numpy", "jax": "jax", "tf": "tensorflow"}


def _be(name):
  return backend_factory.get_backend(name)


# ----------------------------------------------------------------- P05
def _spectrum_tensor(rng, shape, pivot, dtype, kind):
  """tensor with a chosen spectrum (degenerate, rank deficient, zero ...)"""
  l = int(np.prod(shape[:pivot], dtype=int))
  r = int(np.prod(shape[pivot:], dtype=int))
  k = min(l, r)
  if kind == "generic":
    return rng.array(shape, dtype)
  if kind == "zerocol":
    m = rng.array((l, r), dtype)
    m[:, rng.int(0, r - 1)] = 0
    if rng.bool():
      m[rng.int(0, l - 1), :] = 0
    return m.reshape(shape)
  if kind == "int":
    return rng.r.randint(-2, 3, size=shape).astype(dtype)
  q1 = np.linalg.qr(rng.array((l, l), dtype))[0][:, :k]
  q2 = np.linalg.qr(rng.array((r, r), dtype))[0][:, :k]
  if kind == "rankdef":
    s = np.array([1.0 / (i + 1) if i < max(1, k - 1) else 0.0 for i in range(k)])
  elif kind == "steps":
    s = np.array([2.0**-i for i in range(k)])
  else:
    s = np.array([1.0 + 0.25 * (k - i) for i in range(k)])
  return ((q1 * s) @ q2.conj().T).reshape(shape)


def _isometry(m, msg, left=True):
  m = np.asarray(m)
  g = m.conj().T @ m if left else m @ m.conj().T
  same(g, np.eye(g.shape[0]), msg)


def _svd_case(rng, backend):
  be = _be(backend)
  rank = rng.int(2, 5)
  shape = rng.shape(rank, 1, 3)
  pivot = rng.int(1, rank - 1)
  if rng.bool(0.2):
    pivot = pivot - rank
  dtype = rng.dtype()
  kind = rng.choice(["generic", "rankdef", "steps", "flat", "int", "zerocol"])
  a = _spectrum_tensor(rng, shape, pivot, dtype, kind)
  l = int(np.prod(shape[:pivot], dtype=int))
  mat = a.reshape(l, -1)
  full = np.linalg.svd(mat, compute_uv=False)
  n = len(full)
  kw = {}
  maxs = rng.choice([None, None, 0, 1, 2, n - 1, n, n + 3])
  if maxs is not None and maxs >= 0:
    kw["max_singular_values"] = maxs
  norms = np.sqrt(np.cumsum(full[::-1]**2))
  mode = rng.choice(["none", "abs", "abs", "rel", "rel", "zero", "all"])
  relative = False
  if mode in ("abs", "rel"):
    # bound strictly between two attainable truncation errors
    pts = np.concatenate([[0.0], norms])
    j = rng.int(0, len(pts) - 1)
    lo = pts[j]
    hi = pts[j + 1] if j + 1 < len(pts) else pts[j] + 1.0
    bound = 0.5 * (lo + hi)
    if hi - lo < 1e-6:
      bound = None
    elif mode == "rel":
      relative = True
      if full[0] < 1e-6:
        bound = None
      else:
        bound = bound / full[0]
    if bound is not None:
      kw["max_truncation_error"] = bound
      if relative or rng.bool():
        kw["relative"] = relative
  elif mode == "all":
    kw["max_truncation_error"] = float(norms[-1] * 2 + 1)
  elif mode == "zero" and np.min(full) > 1e-6:
    kw["max_truncation_error"] = 0.0
  rng.note("svd", backend, shape, pivot, np.dtype(dtype).name, kind, kw)
  x = be.convert_to_tensor(a)
  u, s, vh, rest = be.svd(x, pivot, **kw)
  same(x, a, "svd changed its input")
  u, s, vh, rest = [tonp(t) for t in (u, s, vh, rest)]
  k = len(s)
  require(u.shape == tuple(shape[:pivot]) + (k,), f"svd: shape of u {u.shape}")
  require(vh.shape == (k,) + tuple(shape[pivot:]), f"svd: shape of vh {vh.shape}")
  same(np.concatenate([s, rest]), full.astype(dtype),
       "svd: kept and discarded singular values are the spectrum")
  require(k + len(rest) == n, "svd: number of singular values")
  # expected number kept
  keep = n
  if "max_truncation_error" in kw:
    b = kw["max_truncation_error"] * (full[0] if kw.get("relative") else 1.0)
    keep = n - int(np.sum(norms <= b))
  if "max_singular_values" in kw:
    keep = min(keep, kw["max_singular_values"])
  require(k == keep, f"svd: keeps {k} singular values instead of {keep} of "
          f"{full.tolist()}")
  um = u.reshape(l, k)
  vm = vh.reshape(k, a.size // l)
  _isometry(um, "svd: u is not an isometry")
  _isometry(vm, "svd: vh is not an isometry", left=False)
  diff = mat - (um * s) @ vm
  same(np.linalg.norm(diff)**2, np.sum(np.abs(rest)**2),
       "svd: squared reconstruction error", eps=1e-7)


def _qr_case(rng, backend):
  be = _be(backend)
  rank = rng.int(2, 5)
  shape = rng.shape(rank, 1, 3)
  pivot = rng.int(1, rank - 1)
  if rng.bool(0.2):
    pivot = pivot - rank
  dtype = rng.dtype()
  kind = rng.choice(["generic", "rankdef", "generic", "zerocol", "int"])
  a = _spectrum_tensor(rng, shape, pivot, dtype, kind)
  l = int(np.prod(shape[:pivot], dtype=int))
  r = int(np.prod(shape[pivot:], dtype=int))
  nonneg = rng.bool()
  which = rng.choice(["qr", "rq"])
  rng.note(which, backend, shape, pivot, np.dtype(dtype).name, kind, nonneg)
  x = be.convert_to_tensor(a)
  f1, f2 = getattr(be, which)(x, pivot, nonneg)
  same(x, a, f"{which} changed its input")
  f1, f2 = tonp(f1), tonp(f2)
  k = min(l, r)
  require(f1.shape == tuple(shape[:pivot]) + (k,), f"{which}: shape {f1.shape}")
  require(f2.shape == (k,) + tuple(shape[pivot:]), f"{which}: shape {f2.shape}")
  m1, m2 = f1.reshape(l, k), f2.reshape(k, r)
  same(m1 @ m2, a.reshape(l, r), f"{which}: product of the factors")
  if which == "qr":
    _isometry(m1, "qr: q is not an isometry")
    tri = m2[:, :k]
    same(np.tril(tri, -1), np.zeros_like(tri), "qr: r is not upper triangular")
  else:
    _isometry(m2, "rq: q is not an isometry", left=False)
    tri = m1[:k, :]
    # r = (upper triangular r')^H is lower triangular as documented by code
    same(np.triu(tri, 1), np.zeros_like(tri), "rq: r is not triangular")
  if nonneg:
    d = np.diagonal(tri)
    require(np.all(np.abs(d.imag) < 1e-8) and np.all(d.real > -1e-8),
            f"{which}: diagonal {d} is not non-negative")


def _linalg_dec_case(rng, backend):
  """the public wrappers return what the backend returns"""
  be = _be(backend)
  rank = rng.int(2, 4)
  shape = rng.shape(rank, 1, 3)
  pivot = rng.int(1, rank - 1)
  a = rng.array(shape, rng.dtype())
  t = tn.Tensor(be.convert_to_tensor(a), backend=backend)
  what = rng.choice(["svd", "qr", "rq", "eigh", "inv", "expm"])
  rng.note("linalg." + what, backend, shape, pivot)
  if what == "svd":
    kw = {}
    if rng.bool():
      kw["max_singular_values"] = rng.int(1, 4)
    if rng.bool():
      kw["max_truncation_error"] = float(rng.choice([1e-3, 0.5, 1.0]))
      kw["relative"] = rng.bool()
    got = tl.svd(t, pivot, **kw)
    want = be.svd(t.array, pivot, **kw)
  elif what in ("qr", "rq"):
    nn = rng.bool()
    got = getattr(tl, what)(t, pivot, nn)
    want = getattr(be, what)(t.array, pivot, nn)
  else:
    n = rng.int(1, 4)
    m = rng.array((n, n), rng.dtype())
    m = m + m.conj().T
    t = tn.Tensor(be.convert_to_tensor(m), backend=backend)
    got = getattr(tl, what)(t)
    if what == "eigh":
      w, v = tonp(got[0].array), tonp(got[1].array)
      same(w, np.linalg.eigvalsh(m), "eigh: eigenvalues")
      same(m @ v, v * w, "eigh: eigenvector equation")
      _isometry(v, "eigh: eigenvectors")
      return
    if what == "inv":
      same(got.array, np.linalg.inv(m), "inv", eps=1e-6)
      return
    w, v = np.linalg.eigh(m)
    same(got.array, (v * np.exp(w)) @ v.conj().T, "expm", eps=1e-7)
    return
  require(isinstance(got, tuple) and len(got) == len(want), f"{what}: results")
  for g, w in zip(got, want):
    require(isinstance(g, tn.Tensor), f"{what}: result is not a Tensor")
    same(g.array, tonp(w), f"linalg.{what}")


def _reg(group, backend, quick, thorough):
  def svd(rng):
    _svd_case(rng, backend)
  def qr(rng):
    _qr_case(rng, backend)
  def wrappers(rng):
    _linalg_dec_case(rng, backend)
  for f in (svd, qr, wrappers):
    f.__name__ = f"{f.__name__}_{group}"
    scenario("P05", quick, thorough, group)(f)


_reg("np", "numpy", 800, 12000)
_reg("jax", "jax", 60, 500)
_reg("tf", "tensorflow", 200, 2000)


# ----------------------------------------------------------------- P18
def _arr(rng, be, shape, dtype):
  a = rng.array(shape, dtype)
  return a, be.convert_to_tensor(a)


def _op_tensordot(rng, be):
  ra, rb = rng.int(0, 4), rng.int(0, 4)
  n = rng.int(0, min(ra, rb))
  if rng.bool(0.3):
    ra = rb = n
  sa, sb = list(rng.shape(ra, 1, 3)), list(rng.shape(rb, 1, 3))
  xa, xb = rng.perm(ra)[:n], rng.perm(rb)[:n]
  form = rng.choice(["lists", "lists", "int", "neg"])
  if form == "int":
    xa, xb = list(range(ra - n, ra)), list(range(n))
  for i, j in zip(xa, xb):
    sb[j] = sa[i]
  dtype = rng.dtype()
  a, ta = _arr(rng, be, tuple(sa), dtype)
  b, tb = _arr(rng, be, tuple(sb), dtype)
  axes = n if form == "int" else [xa, xb]
  if form == "neg" and be.name == "numpy":
    axes = [[i - ra if rng.bool() else i for i in xa],
            [j - rb if rng.bool() else j for j in xb]]
  rng.note("tensordot", sa, sb, axes)
  la = list(range(ra))
  lb = [100 + j for j in range(rb)]
  lb = [ra + j for j in range(rb)]
  for i, j in zip(xa, xb):
    lb[j] = la[i]
  out = [la[i] for i in range(ra) if i not in xa] + \
      [lb[j] for j in range(rb) if j not in xb]
  want = np.einsum(a, la, b, lb, out)
  same(be.tensordot(ta, tb, axes), want, "tensordot")
  if rng.bool(0.3):
    t = to.tensordot(tn.Tensor(ta, backend=be), tn.Tensor(tb, backend=be), axes)
    same(t.array, want, "linalg.tensordot")
  same(ta, a, "tensordot changed its operand")
  same(tb, b, "tensordot changed its operand")


def _index(a, f, shape):
  out = np.zeros(shape, dtype=a.dtype)
  for i in np.ndindex(*shape):
    out[i] = a[f(i)]
  return out


def _op_transpose(rng, be):
  r = rng.int(0, 4)
  a, t = _arr(rng, be, rng.shape(r, 1, 3), rng.dtype())
  p = None if rng.bool(0.2) else rng.perm(r)
  rng.note("transpose", a.shape, p)
  q = p if p is not None else list(range(r))[::-1]
  want = np.einsum(a, list(range(r)), q)
  same(be.transpose(t, p) if p is not None else be.transpose(t), want,
       "transpose")
  x = tn.Tensor(t, backend=be)
  same(x.transpose(p).array, want, "Tensor.transpose")
  same(to.transpose(x, p).array, want, "linalg.transpose")
  same(x.hconj(p).array, want.conj(), "Tensor.hconj")
  same(to.hconj(x, p).array, want.conj(), "linalg.hconj")
  if p is None:
    same(x.T.array, want, "Tensor.T")
    same(x.H.array, want.conj(), "Tensor.H")
  same(x.array, a, "operand changed")


def _op_reshape(rng, be):
  a, t = _arr(rng, be, rng.shape(rng.int(0, 4), 1, 3), rng.dtype())
  dims = []
  n = a.size
  for p in (2, 3):
    while n % p == 0:
      dims.append(p)
      n //= p
  dims += [1] * rng.int(0, 2)
  dims = rng.shuffled(dims)
  while len(dims) > 2 and rng.bool(0.4):
    dims = [dims[0] * dims[1]] + dims[2:]
  rng.note("reshape", a.shape, dims)
  shp = rng.choice([list, tuple])(dims)
  same(be.reshape(t, shp), a.reshape(dims), "reshape")
  x = tn.Tensor(t, backend=be)
  same(to.reshape(x, shp).array, a.reshape(dims), "linalg.reshape")
  same(x.reshape(shp).array, a.reshape(dims), "Tensor.reshape")
  same(x.ravel().array, a.reshape(-1), "Tensor.ravel")
  same(x.flatten().array, a.reshape(-1), "Tensor.flatten")
  same(x.squeeze().array, a.squeeze(), "Tensor.squeeze")
  require(tuple(x.shape) == a.shape and x.ndim == a.ndim and
          int(x.size) == a.size and to.shape(x) == a.shape, "Tensor.shape")


def _op_slice(rng, be):
  a, t = _arr(rng, be, rng.shape(rng.int(1, 3), 1, 4), rng.dtype())
  st = tuple(rng.int(0, d - 1) for d in a.shape)
  sz = tuple(rng.int(1, d - s) for d, s in zip(a.shape, st))
  rng.note("slice", a.shape, st, sz)
  want = a[tuple(slice(s, s + z) for s, z in zip(st, sz))]
  same(be.slice(t, st, sz), want, "slice")
  if be.name != "tensorflow":
    neg = tuple(s - d for s, d in zip(st, a.shape))
    same(be.slice(t, neg, sz), want, "slice with negative starts")
  same(to.take_slice(tn.Tensor(t, backend=be), st, sz).array, want,
       "linalg.take_slice")
  raises(ValueError, lambda: be.slice(t, st + (0,), sz), "slice lengths")


def _op_diag(rng, be):
  r = rng.int(2, 4)
  a, t = _arr(rng, be, rng.shape(r, 1, 4), rng.dtype())
  x, y = rng.perm(r)[:2]
  if be.name == "tensorflow" or rng.bool(0.3):
    x, y = -2, -1
  px, py = x % r, y % r
  d0, d1 = a.shape[px], a.shape[py]
  k = rng.int(-(d0 - 1), d1 - 1)
  rng.note("diagonal", a.shape, "offset", k, "axes", x, y)
  rest = [i for i in range(r) if i not in (px, py)]
  m = np.einsum(a, list(range(r)), rest + [px, py])
  ln = min(d0 + min(k, 0), d1 - max(k, 0))
  want = np.stack([m[..., i + max(0, -k), i + max(0, k)] for i in range(ln)],
                  axis=-1)
  kw = {} if (x, y) == (-2, -1) and rng.bool() else dict(axis1=x, axis2=y)
  X = tn.Tensor(t, backend=be)
  same(be.diagonal(t, offset=k, **kw), want, "diagonal")
  same(to.diagonal(X, offset=k, **kw).array, want, "linalg.diagonal")
  if be.name == "tensorflow" and k != 0:
    k = 0
    if d0 != d1:
      return
  if be.name == "tensorflow":
    if d0 != d1:
      return
    want = np.einsum(a, [py if i == px else i for i in range(r)], rest)
    same(be.trace(t), np.trace(a, axis1=-2, axis2=-1), "trace")
    x2, y2 = rng.perm(r)[:2]
    if a.shape[x2] == a.shape[y2]:
      same(be.trace(t, axis1=x2, axis2=y2), np.trace(a, axis1=x2, axis2=y2),
           "trace")
    return
  want = want.sum(axis=-1)
  same(be.trace(t, offset=k, **kw), want, "trace")
  same(to.trace(X, offset=k, **kw).array, want, "linalg.trace")


def _op_diagflat(rng, be):
  a, t = _arr(rng, be, rng.shape(rng.int(0, 3), 1, 3), rng.dtype())
  k = rng.int(-3, 3)
  rng.note("diagflat", a.shape, k)
  n = a.size + abs(k)
  want = np.zeros((n, n), a.dtype)
  for i, v in enumerate(a.reshape(-1)):
    want[i + max(0, -k), i + max(0, k)] = v
  same(be.diagflat(t, k=k), want, "diagflat")
  same(to.diagflat(tn.Tensor(t, backend=be), k=k).array, want,
       "linalg.diagflat")


def _op_outer(rng, be):
  dt = rng.dtype()
  a, ta = _arr(rng, be, rng.shape(rng.int(0, 3), 1, 3), dt)
  b, tb = _arr(rng, be, rng.shape(rng.int(0, 3), 1, 3), dt)
  rng.note("outer", a.shape, b.shape)
  want = np.multiply.outer(a, b)
  same(be.outer_product(ta, tb), want, "outer_product")
  A, B = tn.Tensor(ta, backend=be), tn.Tensor(tb, backend=be)
  same(to.outer(A, B).array, want, "linalg.outer")
  if a.ndim % 2 == 0 and b.ndim % 2 == 0:
    p, q = a.ndim // 2, b.ndim // 2
    perm = list(range(p)) + [a.ndim + i for i in range(q)] + \
        list(range(p, a.ndim)) + [a.ndim + i for i in range(q, b.ndim)]
    same(to.kron(A, B).array, want.transpose(perm), "linalg.kron")
  else:
    raises(ValueError, lambda: to.kron(A, B), "kron of odd rank")


def _op_elementwise(rng, be):
  dt = rng.dtype()
  a, ta = _arr(rng, be, rng.shape(rng.int(0, 3), 1, 3), dt)
  A = tn.Tensor(ta, backend=be)
  for f in ("sin", "cos", "exp", "conj"):
    same(getattr(be, f)(ta), getattr(np, f)(a), f)
    same(getattr(to, f)(A).array, getattr(np, f)(a), "linalg." + f)
  same(A.conj().array, a.conj(), "Tensor.conj")
  same(A.conjugate().array, a.conj(), "Tensor.conjugate")
  p = np.abs(a) + 0.1
  tp = be.convert_to_tensor(p)
  P = tn.Tensor(tp, backend=be)
  same(be.sqrt(tp), np.sqrt(p), "sqrt")
  same(to.sqrt(P).array, np.sqrt(p), "linalg.sqrt")
  same(be.log(tp), np.log(p), "log")
  same(to.log(P).array, np.log(p), "linalg.log")
  same(be.abs(ta), np.abs(a), "abs")
  same(to.abs(A).array, np.abs(a), "linalg.abs")
  if dt == np.float64:
    z = a.copy()
    if z.size:
      z.reshape(-1)[0] = 0
    tz = be.convert_to_tensor(z)
    same(be.sign(tz), np.sign(z), "sign")
    same(to.sign(tn.Tensor(tz, backend=be)).array, np.sign(z), "linalg.sign")
  same(be.power(tp, be.convert_to_tensor(np.full(p.shape, 1.5))), p**1.5,
       "power")
  same(be.norm(ta), np.sqrt(np.sum(np.abs(a)**2)).astype(
      tonp(be.norm(ta)).dtype), "norm")
  same(tl.norm(A), np.sqrt(np.sum(np.abs(a)**2)).astype(
      tonp(be.norm(ta)).dtype), "linalg.norm")
  same(A.array, a, "operand changed")


def _op_arith(rng, be):
  dt = rng.dtype()
  shp = rng.shape(rng.int(0, 3), 1, 3)
  a, ta = _arr(rng, be, shp, dt)
  b, tb = _arr(rng, be, shp, dt)
  b = b + np.sign(b.real + 0.3)
  tb = be.convert_to_tensor(b)
  A, B = tn.Tensor(ta, backend=be), tn.Tensor(tb, backend=be)
  for name, f in (("addition", operator.add), ("subtraction", operator.sub),
                  ("multiply", operator.mul), ("divide", operator.truediv)):
    same(getattr(be, name)(ta, tb), f(a, b), name)
    same(f(A, B).array, f(a, b), "Tensor " + name)
    same(f(A, 2.5).array, f(a, 2.5), "Tensor " + name + " scalar")
  same((2.5 * A).array, 2.5 * a, "scalar * Tensor")
  same((2.5 + A).array, 2.5 + a, "scalar + Tensor")
  same((2.5 - A).array, 2.5 - a, "scalar - Tensor")
  same(A.array, a, "operand changed")
  same(B.array, b, "operand changed")
  C = A.copy()
  require(C is not A, "Tensor.copy")
  same(C.array, a, "Tensor.copy")
  other = _be("numpy" if be.name != "numpy" else "symmetric")
  if be.name != "numpy":
    O = tn.Tensor(np.ones(shp), backend="numpy")
    for f in (operator.add, operator.sub, operator.mul, operator.truediv,
              operator.matmul):
      raises(ValueError, lambda: f(A, O), "mixed backends")
    raises(ValueError, lambda: to.outer(A, O), "mixed backends")
    raises(ValueError, lambda: to.tensordot(A, O, 0), "mixed backends")
    if len(shp) % 2 == 0:
      raises(ValueError, lambda: to.kron(A, O), "mixed backends")


def _op_broadcast(rng, be):
  dt = rng.dtype()
  r = rng.int(1, 4)
  a, ta = _arr(rng, be, rng.shape(r, 1, 3), dt)
  v, tv = _arr(rng, be, (a.shape[-1],), dt)
  w, tw = _arr(rng, be, (a.shape[0],), dt)
  rng.note("broadcast", a.shape)
  ls = list(range(r))
  same(be.broadcast_right_multiplication(ta, tv),
       np.einsum(a, ls, v, [r - 1], ls), "broadcast_right_multiplication")
  same(be.broadcast_left_multiplication(tw, ta),
       np.einsum(a, ls, w, [0], ls), "broadcast_left_multiplication")
  m = be.convert_to_tensor(rng.array((2, 2)))
  raises(ValueError, lambda: be.broadcast_right_multiplication(ta, m), "rank")
  raises(ValueError, lambda: be.broadcast_left_multiplication(m, ta), "rank")


def _op_pivot(rng, be):
  r = rng.int(1, 4)
  a, ta = _arr(rng, be, rng.shape(r, 1, 3), rng.dtype())
  k = rng.int(-r + 1, r)
  rng.note("pivot", a.shape, k)
  l = int(np.prod(a.shape[:k], dtype=int))
  want = a.reshape(l, a.size // l)
  same(be.pivot(ta, k), want, "pivot")
  same(to.pivot(tn.Tensor(ta, backend=be), k).array, want, "linalg.pivot")
  raises(ValueError, lambda: be.pivot(ta, r + 1), "pivot beyond rank")


def _op_matmul(rng, be):
  dt = rng.dtype()
  batch = rng.shape(rng.int(0, 2), 1, 3)
  i, j, k = rng.shape(3, 1, 3)
  a, ta = _arr(rng, be, batch + (i, j), dt)
  b, tb = _arr(rng, be, batch + (j, k), dt)
  rng.note("matmul", a.shape, b.shape)
  n = len(batch)
  want = np.einsum(a, list(range(n)) + [n, n + 1], b,
                   list(range(n)) + [n + 1, n + 2],
                   list(range(n)) + [n, n + 2])
  same(be.matmul(ta, tb), want, "matmul")
  same((tn.Tensor(ta, backend=be) @ tn.Tensor(tb, backend=be)).array, want,
       "Tensor @")
  v = be.convert_to_tensor(rng.array((j,), dt))
  raises(ValueError, lambda: be.matmul(ta, v), "matmul with a vector")
  if n == 0:
    same(be.einsum("ij,jk->ki", ta, tb), want.T, "einsum")
    same(to.einsum("ij,jk->ki", tn.Tensor(ta, backend=be),
                   tn.Tensor(tb, backend=be), optimize=rng.bool()).array,
         want.T, "linalg.einsum")


def _op_sum(rng, be):
  r = rng.int(1, 4)
  a, ta = _arr(rng, be, rng.shape(r, 1, 3), rng.dtype())
  axes = rng.subset(range(r), rng.int(1, r))
  keep = rng.bool()
  rng.note("sum", a.shape, axes, keep)
  same(be.sum(ta, axis=tuple(axes), keepdims=keep),
       np.sum(a, axis=tuple(axes), keepdims=keep), "sum")
  same(be.sum(ta, keepdims=keep), np.sum(a, keepdims=keep), "sum over all axes")
  mask = a.real > 0.2
  same(be.index_update(ta, be.convert_to_tensor(mask), be.convert_to_tensor(
      np.asarray(7.0, a.dtype))), np.where(mask, 7.0, a), "index_update")
  same(ta, a, "index_update changed its operand")


def _op_shape(rng, be):
  a, ta = _arr(rng, be, rng.shape(rng.int(0, 4), 1, 4), rng.dtype())
  require(tuple(be.shape_tuple(ta)) == a.shape, "shape_tuple")
  require(tuple(be.sparse_shape(ta)) == a.shape, "sparse_shape")
  require(tuple(int(i) for i in tonp(be.shape_tensor(ta)).reshape(-1)) ==
          a.shape, "shape_tensor")
  if a.ndim:
    require(int(tonp(be.shape_prod(be.shape_tensor(ta)))) == a.size,
            "shape_prod")
    x = tonp(be.shape_concat([be.shape_tensor(ta), [5, 6]], axis=-1))
    require([int(i) for i in x] == list(a.shape) + [5, 6], "shape_concat")
  one = rng.array((1,) * rng.int(0, 2))
  got = tonp(be.item(be.convert_to_tensor(one)))
  require(got.shape == () and abs(float(got) - one.reshape(-1)[0]) < 1e-12,
          f"item: {got!r}")
  require(float(be.eps(np.float64)) == np.finfo(np.float64).eps, "eps")
  n = rng.int(1, 4)
  h = rng.array((n, n), rng.dtype())
  h = h + h.conj().T
  w, v = be.eigh(be.convert_to_tensor(h))
  w, v = tonp(w), tonp(v)
  same(w, np.linalg.eigvalsh(h), "eigh: eigenvalues")
  same(h @ v, v * w, "eigh: equation")
  same(be.inv(be.convert_to_tensor(h)), np.linalg.inv(h), "inv", eps=1e-6)


def _op_init(rng, be):
  shp = rng.shape(rng.int(0, 3), 1, 3)
  if be.name == "tensorflow":
    import tensorflow as tf
    dts = [tf.float64, tf.complex128, tf.float32, np.complex128, np.complex64,
           np.float64, None]
  else:
    dts = [np.float64, np.complex128, np.float32, np.complex64, None]
  dt = rng.choice(dts)
  npdt = np.dtype("float64") if dt is None else np.dtype(
      dt.as_numpy_dtype if hasattr(dt, "as_numpy_dtype") else dt)
  kw = {} if dt is None else {"dtype": dt}
  rng.note("init", shp, npdt.name)

  def chk(t, want, msg):
    same(t, want, msg)
    require(tonp(t).dtype == npdt, f"{msg}: dtype {tonp(t).dtype}")

  N = rng.int(1, 4)
  M = rng.choice([None, rng.int(1, 4)])
  for wrap in ("be", "tensor", "node"):
    if wrap == "be":
      mk = lambda f, *a, **k: getattr(be, f)(*a, **k)
      un = lambda t: t
    elif wrap == "tensor":
      mk = lambda f, *a, **k: getattr(ti, f)(*a, backend=be, **k)
      un = lambda t: t.array
    else:
      mk = lambda f, *a, **k: getattr(nl, f)(*a, backend=be, **k)
      un = lambda t: t.tensor
    chk(un(mk("ones", shp, **kw)), np.ones(shp, npdt), "ones")
    chk(un(mk("zeros", shp, **kw)), np.zeros(shp, npdt), "zeros")
    chk(un(mk("eye", N, M=M, **kw)), np.eye(N, M, dtype=npdt), "eye")
    chk(un(mk("eye", N, dt, M)), np.eye(N, M, dtype=npdt), "eye")
    for f in ("randn", "random_uniform"):
      ex = {}
      if f == "random_uniform":
        ex = rng.choice([{}, {"boundaries": (-2.0, -1.0)},
                         {"boundaries": (3.0, 5.0)}])
      seed = rng.choice([0, 11])
      rng.note(f, "seed", seed)
      s1 = tonp(un(mk(f, shp, seed=seed, **kw, **ex)))
      s2 = tonp(un(mk(f, shp, seed=seed, **kw, **ex)))
      s3 = tonp(un(mk(f, shp, seed=12, **kw, **ex)))
      require(s1.shape == shp and s1.dtype == npdt, f"{f}: shape/dtype")
      require(np.array_equal(s1, s2), f"{f}: not reproducible from its seed")
      require(not np.array_equal(s1, s3), f"{f}: the seed has no effect")
      if f == "random_uniform":
        lo, hi = ex.get("boundaries", (0.0, 1.0))
        parts = [s1.real, s1.imag] if s1.dtype.kind == "c" else [s1]
        for p in parts:
          require(np.all(p >= lo) and np.all(p <= hi) and
                  (p.size < 2 or np.any(p != p.ravel()[0])),
                  "random_uniform: bounds")
      elif s1.dtype.kind == "c":
        require(np.all(s1.imag != 0), "randn: complex part")


def _op_like(rng, be):
  a, ta = _arr(rng, be, rng.shape(rng.int(1, 3), 1, 3), rng.dtype())
  T = tn.Tensor(ta, backend=be)
  z, o = ti.zeros_like(T), ti.ones_like(T)
  same(z.array, np.zeros(a.shape, a.dtype), "zeros_like")
  same(o.array, np.ones(a.shape, a.dtype), "ones_like")
  require(tonp(z.array).dtype == a.dtype and tonp(o.array).dtype == a.dtype,
          "zeros_like/ones_like: dtype")
  require(z.backend.name == be.name and o.backend.name == be.name,
          "zeros_like: backend")
  if be.name in ("numpy",):
    s = be.serialize_tensor(ta)
    back = be.deserialize_tensor(s)
    same(back, a, "deserialize(serialize)")
    require(back.dtype == a.dtype, "deserialize: dtype")


def _op_nodes(rng, be):
  """node helpers leave their operands unchanged"""
  r = rng.int(0, 4)
  a, ta = _arr(rng, be, rng.shape(r, 1, 3), rng.dtype())
  n = tn.Node(ta, name="n", axis_names=[f"x{i}" for i in range(r)], backend=be)
  snap = snapshot([n])
  same(tonp(nl.norm(n)), np.sqrt(np.sum(np.abs(a)**2)).astype(
      tonp(nl.norm(n)).dtype), "node norm")
  c = nl.conj(n)
  same(c.tensor, a.conj(), "node conj")
  p = rng.perm(r)
  t = nl.transpose(n, [f"x{i}" if rng.bool() else i for i in p])
  same(t.tensor, a.transpose(p), "node transpose")
  check_wf([c, t])
  require(list(t.axis_names) == [f"x{i}" for i in p], "transpose: axis names")
  require(list(c.axis_names) == list(n.axis_names), "conj: axis names")
  require(snapshot([n]) == snap, "a node helper changed its operand")
  k = rng.int(1, 3)
  ops = [rng.array(rng.shape(2 * rng.int(0, 1) if rng.bool() else 2, 1, 3))
         for _ in range(k)]
  nodes = [tn.Node(be.convert_to_tensor(o), backend=be) for o in ops]
  first = [e for m in nodes for e in m.edges[:len(m.shape) // 2]]
  second = [e for m in nodes for e in m.edges[len(m.shape) // 2:]]
  ref = value(nodes, first + second)
  res = nl.kron(nodes)
  same(res.tensor, ref, "node kron")
  require([id(e) for e in res.edges] == [id(e) for e in first + second],
          "node kron: edge order")


OPS = [_op_tensordot, _op_transpose, _op_reshape, _op_slice, _op_diag,
       _op_diagflat, _op_outer, _op_elementwise, _op_arith, _op_broadcast,
       _op_pivot, _op_matmul, _op_sum, _op_shape, _op_init, _op_like, _op_nodes]


def _reg18(group, backend, quick, thorough):
  for op in OPS:
    def f(rng, op=op):
      op(rng, _be(backend))
    f.__name__ = op.__name__[4:] + "_" + group
    scenario("P18", quick, thorough, group)(f)


_reg18("np", "numpy", 120, 1500)
_reg18("jax", "jax", 12, 80)
_reg18("tf", "tensorflow", 30, 300)


@scenario("P18", quick=2, thorough=4)
def high_rank_np(rng):
  """ranks at which single-letter einsum labels run out"""
  be = _be("numpy")
  n = rng.int(25, 28)
  shp = [1] * n
  for i in rng.perm(n)[:3]:
    shp[i] = 2
  a = rng.array(tuple(shp))
  p = rng.perm(n)
  b = rng.array(tuple(np.array(shp)[np.argsort(p)]) if False else tuple(
      shp[p[i]] for i in range(n)))
  rng.note("tensordot full contraction of rank", n)
  # axis p[i] of a pairs with axis i of b
  want = np.sum(np.transpose(a, p) * b)
  same(be.tensordot(a, b, [p, list(range(n))]), want, "tensordot rank > 26")
