"""P17: Krylov solvers, for every map and every start vector."""
import itertools
import numpy as np
from tensornetwork.backends.numpy import numpy_backend as nb
from tensornetwork.backends.symmetric import symmetric_backend as sb
from tensornetwork.block_sparse.blocksparsetensor import BlockSparseTensor
import tensornetwork as tn
import tensornetwork.block_sparse as bs
from tensornetwork.linalg import krylov as kr
from pyvc.contract import contract
from pyvc import core
from contracts import krylib as kl
from contracts.krylib import Sc, Vec
from contracts import bslib
from contracts.poly import Poly

Y_ = "tensornetwork.backends.symmetric.symmetric_backend:SymmetricBackend."
K_ = "tensornetwork.linalg.krylov:"
B_ = "tensornetwork.backends.numpy.numpy_backend:NumPyBackend."
TRUSTED = ("numpy on object arrays; np.linalg.norm and np.linalg.eigh by "
           "contract", "exact arithmetic: roots of norms are formal, tolerance "
           "tests may go either way")


def K(targets, limit=300, internal=False):

  def deco(fn):

    def repeat(c):
      if not c.concrete:
        return fn(c)
      picks, nd, seed = c.picks, c.nd, c.seed
      for s in range(6):
        c.pos, c.nd, c.seed = 0, nd, seed * 1000 + s
        try:
          fn(c)
        except Exception as e:  # pylint: disable=broad-except
          if not str(e).startswith("skip"):
            raise
        if c.failures:
          return None
      return None

    repeat.__name__ = fn.__name__
    repeat.__module__ = fn.__module__
    return contract("P17", targets, modes=("bounded",), replay=True,
                    limit=limit, internal=internal, trusted=TRUSTED)(repeat)

  return deco


class Map:
  """an arbitrary Hermitian map and start vector"""

  def __init__(self, c, n):
    self.c, self.n, self.calls, self.args = c, n, 0, None
    if c.concrete:
      r = c.rng("map")
      a = r.randn(n, n) + 1j * r.randn(n, n)
      self.h = a + a.conj().T
      self.v = r.randn(n) + 1j * r.randn(n)
    else:
      kl.reset(n)

  def start(self):
    if self.c.concrete:
      return self.v.copy()
    a = np.empty((self.n,), dtype=object)
    for i in range(self.n):
      a[i] = Vec(i, {0: Sc.of(1)})
    return a

  def apply(self, data):
    """A times the vector with these components"""
    self.calls += 1
    if self.c.concrete:
      return self.h @ data
    out = np.empty((self.n,), dtype=object)
    ok = all(isinstance(x, Vec) and x.i == i for i, x in enumerate(data))
    if not self.c.fact("the map is applied to a vector", ok, str(list(data))):
      raise core.EndPath()
    for i, x in enumerate(data):
      out[i] = Vec(i, {k + 1: v for k, v in x.c.items()})
    return out

  def unchanged(self, a):
    if self.c.concrete:
      return np.array_equal(a, self.v)
    s = self.start()
    return all(isinstance(x, Vec) and x.same(y) for x, y in zip(a, s))

  def ritz(self, what, m, value, data, value_index):
    """x is in the span of v .. A^(m-1) v, has norm one, and A x - value x is
    orthogonal to that span; the values are in ascending order."""
    c = self.c
    if c.concrete:
      x = np.asarray(data)
      ks = [self.v]
      for _ in range(m - 1):
        ks.append(self.h @ ks[-1])
      q, _ = np.linalg.qr(np.array(ks).T)
      c.fact(what + ": in the Krylov space",
             np.linalg.norm(x - q @ (q.conj().T @ x)) < 1e-6)
      c.fact(what + ": norm one", abs(np.linalg.norm(x) - 1) < 1e-8)
      w = np.linalg.eigvalsh(q.conj().T @ self.h @ q)
      c.fact(what + ": eigenvalue of the projected map, in order",
             abs(w[value_index] - value) < 1e-6, f"{w} {value}")
      r = self.h @ x - value * x
      c.fact(what + ": residual orthogonal to the Krylov space",
             np.linalg.norm(q.conj().T @ r) < 1e-6)
      return
    ok = len(data) == self.n and all(
        isinstance(x, Vec) and x.i == i for i, x in enumerate(data))
    if not c.fact(what + ": a vector", ok, str(list(data))[:300]):
      return
    c.fact(what + ": norm one", all(x.unit for x in data))
    c.fact(what + ": in the Krylov space",
           all(k < m for x in data for k in x.c))
    if not c.fact(what + ": eigenvalue of the projected map, in order",
                  isinstance(value, kl.Value) and value.i == value_index):
      return
    res = []
    for x in data:
      d = {}
      for k, s in x.c.items():
        t = kl.times_value(s, value)
        if t is None:
          c.fact(what + ": the vector belongs to the value", False)
          return
        d[k + 1] = d.get(k + 1, Sc({})) + s
        d[k] = d.get(k, Sc({})) - t
      res.append(Vec(x.i, d))
    for p in range(m):
      b = [Vec(i, {p: Sc.of(1)}) for i in range(self.n)]
      s = kl.product(b, res)
      c.fact(what + ": residual orthogonal to the Krylov space", not s.d,
             f"m={m} p={p} {s}"[:300])


@K([B_ + "eigsh_lanczos", K_ + "eigsh_lanczos"])
def lanczos(c):
  p = c.pick(4)
  front = p == 3
  shape = ([(4,), (2, 3), (1, 5), (2, 2)] if c.concrete else
           [(2,), (2, 1), (1, 1), (1, 2)])[p]
  n = int(np.prod(shape))
  m = Map(c, n)
  be = nb.NumPyBackend()
  reorth = c.flag()
  k = 1 + c.pick((4 if c.thorough else 3) if p == 0 else 2)
  numeig = 1 + (c.pick(min(2, k)) if reorth else 0)
  ndiag = c.pick([20, 1, 2])
  extra = [tn.Tensor(np.ones(2), backend="numpy")] if front else \
      [object()] if p else None
  if not c.concrete:
    c.patch_obj(nb, "np", kl.Shim())
  returned = []

  def A(x, *args):
    c.fact("the map gets its arguments", len(args) == len(extra or []) and all(
        isinstance(y, tn.Tensor) and y.array is z.array if front else y is z
        for y, z in zip(args, extra or [])))
    if front and not c.fact("the map gets a Tensor", isinstance(x, tn.Tensor)):
      raise core.EndPath()
    x = x.array if front else x
    c.fact("the map gets a vector of the right shape", x.shape == shape)
    r = m.apply(x.ravel()).reshape(shape)
    returned.append((r, r.copy()))
    return tn.Tensor(r, backend="numpy") if front else r

  x0 = m.start().reshape(shape)
  kw = dict(tol=0.0) if c.concrete else {}
  kw.update(num_krylov_vecs=k, numeig=numeig, ndiag=ndiag,
            reorthogonalize=reorth)
  if front:
    e, v = c.value(kr.eigsh_lanczos, A, "numpy", extra,
                   tn.Tensor(x0, backend="numpy"), **kw)
    if not c.fact("the eigenvectors are Tensors",
                  all(isinstance(x, tn.Tensor) for x in v)):
      return
    v = [x.array for x in v]
  else:
    e, v = c.value(be.eigsh_lanczos, A, extra, x0, **kw)
  c.fact("the start vector is unchanged",
         x0.shape == shape and m.unchanged(x0.ravel()))
  c.fact("what the map returned (and may hold) is unchanged", all(
      np.array_equal(x, y) if c.concrete else
      all(a is b for a, b in zip(x.ravel(), y.ravel()))
      for x, y in returned))
  c.fact("at most num_krylov_vecs applications", m.calls <= k)
  c.fact("number of eigenpairs",
         len(e) == len(v) == min(numeig, m.calls), f"{len(e)} {len(v)}")
  for i, (val, vec) in enumerate(zip(e, v)):
    c.fact("shape of an eigenvector", np.shape(vec) == shape)
    m.ritz(f"pair {i}", m.calls, val, np.ravel(vec), i)
  c.cover()


# ---------------------------------------------------------- block-sparse tensors
STRUCTURES = [
    # charges and flows of the elementary legs, legs of the axes
    ("u1", [([0, 1], False), ([1, 0], True)], [[0], [1]]),
    ("u1", [([1, 0], False), ([0, 1], True)], [[0, 1]]),
    ("z2", [([0], False), ([0, 1], False), ([1, 0], True)], [[0], [1, 2]]),
]


def structure(c):
  kind, legs, axes = c.pick(STRUCTURES)
  legs = [bslib.Leg((kind,), [(v,) for v in vals], f) for vals, f in legs]
  return (kind,), [[legs[i] for i in a] for a in axes]


def relabel(kind, axes, data, perm):
  """the tensor whose elements in the order of the legs are `data`, stored with
  the legs in the order `perm`"""
  legs = [l for a in axes for l in a]
  m = bslib.mask(kind, legs)
  dense = np.zeros(m.shape, dtype=data.dtype)
  dense[m] = data
  return bslib.stored(kind, axes, dense, perm)


def elements(kind, axes, t):
  """the stored elements in the order of the legs"""
  legs = [l for a in axes for l in a]
  m = bslib.mask(kind, legs)
  flat = t._order
  perm = [i for o in flat for i in o]
  inv = list(np.argsort(perm))
  sl = [legs[inv[i]] for i in range(len(legs))]
  sm = bslib.mask(kind, sl)
  d = np.zeros(sm.shape, dtype=t.data.dtype)
  if t.data.shape != (int(sm.sum()),):
    return np.array([])
  d[sm] = t.data
  return d.transpose(perm)[m]


def like(t, kind, axes):
  """t has the legs of the start vector"""
  legs = [l for a in axes for l in a]
  return isinstance(t, BlockSparseTensor) and \
      [bool(f) for f in t.flat_flows] == [l.flow for l in legs] and \
      [bslib.plain(q) for q in t.flat_charges] == [list(l.vals) for l in legs]\
      and [len(o) for o in t._order] == [len(a) for a in axes]


def shuffles(axes):
  n = sum(len(a) for a in axes)
  return [list(range(n)), list(range(n))[::-1]]


@K([Y_ + "eigsh_lanczos"])
def symmetric_lanczos(c):
  kind, axes = structure(c)
  legs = [l for a in axes for l in a]
  n = int(bslib.mask(kind, legs).sum())
  m = Map(c, n)
  be = sb.SymmetricBackend()
  perms = shuffles(axes)
  first, then = c.pick(perms), c.pick(perms)
  reorth = c.flag()
  k = 1 + c.pick(3 if c.thorough else 2)
  numeig = 1 + (c.pick(min(2, k)) if reorth else 0)
  ndiag = c.pick([20, 1])
  caching = c.flag()
  bs.set_caching_status(False)
  if not c.concrete:
    shim = kl.Shim()
    c.patch_obj(sb, "numpy", shim)
    c.patch_attr(be, "norm", lambda t: kl.norm(t.data))

  def A(x, *args):
    c.fact("the map gets its arguments", args == (7,))
    if not c.fact("the map gets a vector with the legs of the start vector",
                  like(x, kind, axes)):
      raise core.EndPath()
    d = m.apply(elements(kind, axes, x))
    r = relabel(kind, axes, d, then)
    returned.append((r, d))
    return r

  returned = []
  x0 = relabel(kind, axes, m.start(), first)
  kw = dict(tol=0.0) if c.concrete else {}
  e, v = c.value(be.eigsh_lanczos, A, [7], x0, num_krylov_vecs=k,
                 numeig=numeig, ndiag=ndiag, reorthogonalize=reorth,
                 enable_caching=caching, **kw)
  c.fact("the start vector is unchanged",
         like(x0, kind, axes) and m.unchanged(elements(kind, axes, x0)))
  c.fact("what the map returned (and may hold) is unchanged", all(
      like(r, kind, axes) and all(
          a is b or (c.concrete and a == b)
          for a, b in zip(elements(kind, axes, r), d)) for r, d in returned))
  c.fact("caching is as before", not bs.get_caching_status())
  c.fact("number of eigenpairs",
         len(e) == len(v) == min(numeig, m.calls), f"{len(e)} {len(v)}")
  for i, (val, vec) in enumerate(zip(e, v)):
    if c.fact("legs of an eigenvector", like(vec, kind, axes)):
      m.ritz(f"pair {i}", m.calls, val, elements(kind, axes, vec), i)
  c.cover()


# ------------------------------------------------- wrappers of scipy's solvers
class Solver:
  """scipy.sparse.linalg by contract: what it is given is recorded, what it
  returns is arbitrary"""

  def __init__(self, c, n, info=0):
    self.c, self.n, self.info, self.got = c, n, info, None
    self.sparse = self.linalg = self

  def LinearOperator(self, shape=None, matvec=None, dtype=None, **kw):
    if kw:
      raise core.Unsupported(f"LinearOperator with {sorted(kw)}")
    c = self.c
    c.fact("operator: shape", tuple(shape) == (self.n, self.n), str(shape))
    return matvec

  aslinearoperator = None

  def probe(self, name):
    a = np.empty((self.n,), dtype=object)
    for i in range(self.n):
      a[i] = Poly.cvar(f"{name}{i}")
    return a

  def gmres(self, A, b, x0=None, *, tol=None, rtol=None, atol=None,
            restart=None, maxiter=None, M=None, **kw):
    if kw:
      raise core.Unsupported(f"gmres with {sorted(kw)}")
    self.got = dict(A=A, b=b.copy(), x0=None if x0 is None else x0.copy(),
                    tol=tol if tol is not None else rtol, atol=atol,
                    restart=restart, maxiter=maxiter, M=M)
    p = self.probe("p")
    keep = p.copy()
    A(p)
    self.c.fact("the operator leaves its argument alone",
                all(x is y for x, y in zip(p, keep)))
    self.x = self.probe("x")
    return self.x, self.info

  def eigs(self, A, k=6, M=None, sigma=None, which="LM", v0=None, ncv=None,
           maxiter=None, tol=0, **kw):
    if kw or M is not None or sigma is not None:
      raise core.Unsupported(f"eigs with {sorted(kw)}")
    self.got = dict(A=A, k=k, which=which, v0=v0.copy(), ncv=ncv,
                    maxiter=maxiter, tol=tol)
    A(self.probe("p"))
    self.eta = np.array([Poly.cvar(f"w{j}") for j in range(k)], dtype=object)
    self.u = np.empty((self.n, k), dtype=object)
    for i in range(self.n):
      for j in range(k):
        self.u[i, j] = Poly.cvar(f"u{i}_{j}")
    return self.eta, self.u


class World:
  """vectors and maps of the backend (or of the front-end)"""

  def __init__(self, c, kinds=("numpy", "symmetric", "front"), big=False):
    self.c = c
    self.kind = c.pick(list(kinds))
    if self.kind == "symmetric":
      legs = [([0, 1], False), ([0, 1], False), ([0, 1, 1], True)] if big else \
          None
      if big:
        self.sym = ("u1",)
        ls = [bslib.Leg(("u1",), [(v,) for v in vals], f) for vals, f in legs]
        self.axes = [[ls[0]], [ls[1], ls[2]]]
        if c.concrete:
          self.axes = [[ls[0]], [ls[1]], [ls[2]], [ls[2].conj()]]
      else:
        self.sym, self.axes = structure(c)
      legs = [l for a in self.axes for l in a]
      self.n = int(bslib.mask(self.sym, legs).sum())
      self.perms = shuffles(self.axes)
      self.first, self.then = c.pick(self.perms), c.pick(self.perms)
      bs.set_caching_status(False)
    else:
      self.shape = c.pick([(4,), (2, 3), (1, 5, 1)] if c.concrete or big else
                          [(2,), (2, 2), (1, 3, 1)])
      self.n = int(np.prod(self.shape))
    n = self.n
    if c.concrete:
      r = c.rng("matrix")
      self.m = r.randn(n, n) + 1j * r.randn(n, n) + 3 * np.eye(n)
    else:
      self.m = np.empty((n, n), dtype=object)
      for i, j in np.ndindex(n, n):
        self.m[i, j] = Poly.cvar(f"a{i}_{j}")
    self.mod = sb if self.kind == "symmetric" else nb
    self.be = self.mod.SymmetricBackend() if self.kind == "symmetric" else \
        nb.NumPyBackend()
    self.extra = object()

  def vector(self, name, scale=None):
    c = self.c
    if c.concrete:
      r = c.rng(name)
      d = r.randn(self.n) + 1j * r.randn(self.n)
      d = d if scale is None else d * scale
    else:
      d = np.empty((self.n,), dtype=object)
      for i in range(self.n):
        d[i] = Poly.cvar(f"{name}{i}")
    if self.kind == "symmetric":
      return d, relabel(self.sym, self.axes, d, self.first)
    t = d.copy().reshape(self.shape)
    return d, tn.Tensor(t, backend="numpy") if self.kind == "front" else t

  def data(self, what, t):
    """stored elements; the result must look like a vector"""
    c = self.c
    if self.kind == "symmetric":
      ok = like(t, self.sym, self.axes)
      d = elements(self.sym, self.axes, t) if ok else None
    else:
      if self.kind == "front":
        if not c.fact(what + ": is a Tensor", isinstance(t, tn.Tensor)):
          raise core.EndPath()
        t = t.array
      ok = tuple(np.shape(t)) == self.shape
      d = np.ravel(t) if ok else None
    if not c.fact(what + ": shape and legs", ok and len(d) == self.n):
      raise core.EndPath()
    return d

  def times(self, d):
    out = np.empty((self.n,), dtype=object)
    for i in range(self.n):
      s = 0
      for j in range(self.n):
        s = s + self.m[i, j] * d[j]
      out[i] = s
    return out.astype(complex) if self.c.concrete else out

  def A(self, x, *args, **kw):
    d = self.data("argument of the map", x)
    got = list(args) + sorted(kw.items())
    if self.kind == "front":
      self.c.fact("arguments of the map", len(got) == 1 and isinstance(
          got[0], tn.Tensor) and got[0].array is self.arg.array)
    else:
      self.c.fact("arguments of the map", got == self.want, f"{got}")
    r = self.times(d)
    if self.kind == "symmetric":
      return relabel(self.sym, self.axes, r, self.then)
    r = r.reshape(self.shape)
    return tn.Tensor(r, backend="numpy") if self.kind == "front" else r

  def arguments(self):
    if self.kind == "front":
      self.arg = tn.Tensor(np.ones(1), backend="numpy")
      return [self.arg]
    self.want = [self.extra]
    return [self.extra]

  def same(self, name, a, b):
    a, b = np.ravel(a), np.ravel(b)
    return self.c.fact(name, len(a) == len(b) and bslib.eq(self.c, a, b),
                       f"{a} {b}"[:300])

  def scipy(self, info=0):
    s = Solver(self.c, self.n, info)
    for name in ("sp", "scipy"):
      if name in self.mod.__dict__:
        self.c.patch_obj(self.mod, name, s)
    return s


@K([B_ + "_gmres", Y_ + "gmres", K_ + "gmres", K_ + "MatvecCache.retrieve",
    K_ + "krylov_error_checks",
    "tensornetwork.backends.abstract_backend:AbstractBackend.gmres"])
def gmres(c):
  w = World(c)
  small = c.concrete and c.seed % 2
  b, bt = w.vector("b", 1e-3 if small else None)
  guess = w.kind == "symmetric" or c.flag()
  x0, x0t = w.vector("g") if guess else (None, None)
  tol, atol = 1e-2 if small else 1e-7, c.pick([None, 1e-9])
  restart = c.pick([None, 1])
  maxiter = c.pick([1, 30])
  info = c.pick([0, 2, -1])
  prec = object() if c.flag() and not c.concrete else None
  args = w.arguments()
  kw = dict(x0=x0t, tol=tol, atol=atol, num_krylov_vectors=restart,
            maxiter=maxiter, M=prec)
  if w.kind == "front":
    f = lambda: kr.gmres(w.A, bt, args, **kw)
  else:
    if c.flag():
      w.want = [("k", 3)]
      args, kw["A_kwargs"] = [], {"k": 3}
    f = lambda: w.be.gmres(w.A, bt, args, **kw)
  if not c.concrete:
    s = w.scipy(info)
  import warnings
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    o = c.call(f)
  if not c.concrete and info < 0:
    c.fact("a breakdown is reported", not o.ok and isinstance(o.exc, ValueError))
    return
  if not o.ok:
    c.unexpected(o) if not c.concrete else c.value(f)
    return
  xt, got = o.value
  x = w.data("solution", xt)
  w.same("the right-hand side is unchanged", w.data("b", bt), b)
  if guess:
    w.same("the guess is unchanged", w.data("x0", x0t), x0)
  if w.kind == "symmetric":
    c.fact("caching is as before", not bs.get_caching_status())
  if c.concrete:
    r = np.linalg.norm(b - w.times(x))
    bound = max(tol * np.linalg.norm(b), tol if atol is None else atol)
    c.fact("convergence is reported only when the residual is small",
           got != 0 or r <= 1.01 * bound, f"{r} {bound}")
    if restart is None and maxiter > 1:
      c.fact("the full Krylov space gives the solution",
             r <= max(1.01 * bound, 1e-4), f"{r}")
    return
  c.fact("the flag of the solver is returned", got == info)
  w.same("the solution of the solver solves the caller's system",
         w.times(x), caller(w, s.got["A"](s.x.copy())))
  w.same("the right-hand side is the caller's", caller(w, s.got["b"]), b)
  if guess:
    w.same("the guess is the caller's", caller(w, s.got["x0"]), x0)
  elif s.got["x0"] is not None:
    w.same("no guess: zero", s.got["x0"], [0] * w.n)
  c.fact("tolerances", s.got["tol"] == tol and
         s.got["atol"] == (tol if atol is None else atol), str(s.got["atol"]))
  c.fact("size of the Krylov space", s.got["restart"] >= w.n if
         restart is None else s.got["restart"] == restart)
  c.fact("restarts and preconditioner", s.got["maxiter"] == maxiter and
         s.got["M"] is prec)
  c.cover()


def caller(w, d):
  """a vector in the solver's order, in the caller's order"""
  if w.kind != "symmetric":
    return d
  t = relabel(w.sym, w.axes, np.zeros(w.n, dtype=object), w.first)
  # the solvers work on the elements in contiguous layout
  t.contiguous(inplace=True)
  t.data = d
  return elements(w.sym, w.axes, t)


@K([B_ + "eigs", Y_ + "eigs", K_ + "eigs"])
def eigs(c):
  w = World(c, big=True)
  v, vt = w.vector("b")
  numeig = 1 + c.pick(2)
  which = c.pick(["LR", "LM", "SR", "SM"])
  ncv = w.n if c.concrete else numeig + 3
  args = w.arguments()
  kw = dict(num_krylov_vecs=ncv, numeig=numeig, which=which, tol=1e-9,
            maxiter=500)
  if w.kind == "front":
    f = lambda: kr.eigs(w.A, args=args, x0=vt, **kw)
  else:
    f = lambda: w.be.eigs(w.A, args, vt, **kw)
  if c.concrete and w.n < numeig + 3:
    return
  if not c.concrete:
    s = w.scipy()
  e, vecs = c.value(f)
  w.same("the start vector is unchanged", w.data("x0", vt), v)
  if w.kind == "symmetric":
    c.fact("caching is as before", not bs.get_caching_status())
  c.fact("number of eigenpairs", len(e) == len(vecs) == numeig)
  ds = [w.data("eigenvector", x) for x in vecs]
  if c.concrete:
    for x, d in zip(e, ds):
      c.fact("eigenvalue equation", np.linalg.norm(
          w.times(d) - x * d) < 1e-5 * np.linalg.norm(d))
    ev = np.linalg.eigvals(w.m)
    key = {"LR": lambda z: -z.real, "SR": lambda z: z.real, "LM":
           lambda z: -abs(z), "SM": abs}[which]
    want = sorted(ev, key=key)[:numeig]
    for x in e:
      c.fact("the requested eigenvalues", min(abs(x - y) for y in want) < 1e-4)
    return
  for j, d in enumerate(ds):
    w.same("the eigenvectors of the solver satisfy the caller's equation",
           w.times(d), caller(w, s.got["A"](s.u[:, j].copy())))
    w.same("the eigenvectors are the solver's", d, caller(w, s.u[:, j]))
    c.fact("the eigenvalues are the solver's", e[j] is s.eta[j])
  w.same("the start vector is the caller's", caller(w, s.got["v0"].ravel()), v)
  c.fact("what is asked for", s.got["k"] == numeig and
         s.got["which"] == which and s.got["tol"] == 1e-9 and
         s.got["ncv"] == ncv and s.got["maxiter"] == 500)
  c.cover()
