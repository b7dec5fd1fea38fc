"""P05: the dense decompositions of the NumPy, JAX and TensorFlow backends.

The real `svd`, `qr` and `rq` run (entered through the backends' methods); only
the array library they are handed is a contract: reshape keeps the row-major
order of the entries, linalg.svd returns arbitrary factors and an arbitrary
non-increasing spectrum (symbolic reals), linalg.qr an arbitrary isometric
factor and an arbitrary triangular one.  Which singular values survive is
decided by z3 for every spectrum and every error bound; the shapes and the
number of singular values are enumerated."""
import itertools
import numpy as np
import z3
from tensornetwork.backends.numpy import numpy_backend
from tensornetwork.backends.jax import jax_backend
from tensornetwork.backends.tensorflow import tensorflow_backend
from tensornetwork.backends.numpy import decompositions as nd
from tensornetwork.backends.tensorflow import decompositions as td
from tensornetwork.linalg import linalg
from tensornetwork.tensor import Tensor
from pyvc.contract import contract
from pyvc import core
from contracts.poly import Poly, PARTNER

ND = "tensornetwork.backends.numpy.decompositions:"
TD = "tensornetwork.backends.tensorflow.decompositions:"


# ------------------------------------------------------------- real numbers
class R:
  """c * sqrt(x) with c real and x >= 0 (terms); x is None for 1."""

  def __init__(self, c, x=None):
    self.c, self.x = c, x

  @staticmethod
  def of(o):
    if isinstance(o, R):
      return o
    if isinstance(o, np.ndarray) and o.shape == ():
      return R.of(o.item())
    if isinstance(o, (int, float, np.integer, np.floating, core.SymNum)):
      t = core.z(o.item() if isinstance(o, np.generic) else o)
      return R(z3.ToReal(t) if z3.is_int(t) else t)
    return None

  def __mul__(self, o):
    if isinstance(o, np.ndarray) and o.shape:
      return NotImplemented
    o = R.of(o)
    if o is None:
      return NotImplemented
    if self.x is None or o.x is None:
      return R(self.c * o.c, self.x if o.x is None else o.x)
    if self.x.eq(o.x):
      return R(self.c * o.c * self.x)
    return R(self.c * o.c, self.x * o.x)

  __rmul__ = __mul__

  def __pow__(self, k):
    if k == 2:
      return self * self
    if k == 0.5:
      return self.sqrt()
    return NotImplemented

  def __add__(self, o):
    if isinstance(o, np.ndarray) and o.shape:
      return NotImplemented
    o = R.of(o)
    if o is None or (self.x is not None or o.x is not None):
      return NotImplemented
    return R(self.c + o.c)

  __radd__ = __add__

  def __neg__(self):
    return R(-self.c, self.x)

  def __sub__(self, o):
    o = R.of(o)
    return NotImplemented if o is None else self + (-o)

  def sqrt(self):
    if self.x is not None:
      raise core.Unsupported("root of a root")
    return R(z3.RealVal(1), self.c)

  def __abs__(self):
    return R(z3.If(self.c >= 0, self.c, -self.c), self.x)

  def conjugate(self):
    return self

  conj = conjugate

  def f(self):
    """strictly monotone in the value"""
    a = self.c * self.c * (self.x if self.x is not None else 1)
    return z3.If(self.c >= 0, a, -a)

  def _cmp(self, o, op):
    o = R.of(o)
    if o is None:
      return NotImplemented
    if self.x is None and o.x is None:
      return core.wrap(z3.simplify(op(self.c, o.c)))
    return core.wrap(z3.simplify(op(self.f(), o.f())))

  def __gt__(self, o):
    return self._cmp(o, lambda a, b: a > b)

  def __ge__(self, o):
    return self._cmp(o, lambda a, b: a >= b)

  def __lt__(self, o):
    return self._cmp(o, lambda a, b: a < b)

  def __le__(self, o):
    return self._cmp(o, lambda a, b: a <= b)

  def __eq__(self, o):
    return self._cmp(o, lambda a, b: a == b)

  __hash__ = None


# ------------------------------------------------------- the array libraries
class Linalg:
  """Contracts of the kernels; records the matrices they were applied to."""

  def __init__(self, c):
    self.c, self.calls, self.rel, self.phase, self.units = c, [], {}, {}, set()

  def arr(self, name, m, n):
    a = np.empty((m, n), dtype=object)
    for i in np.ndindex(m, n):
      a[i] = Poly.cvar(f"{name}{len(self.calls)}_{i[0]}_{i[1]}")
    return a

  def svd(self, a, full_matrices=True, compute_uv=True, hermitian=False):
    m, n = a.shape
    k = min(m, n)
    q = []
    for i in range(k):
      x = core.CTX.real("q")
      core.CTX.assume(x >= 0)
      if q:
        core.CTX.assume(q[-1] >= x)
      q.append(x)
    s = np.empty(k, dtype=object)
    for i in range(k):
      s[i] = R(z3.RealVal(1), q[i])
    u = self.arr("u", m, m if full_matrices else k)
    v = self.arr("v", n if full_matrices else k, n)
    self.calls.append(("svd", a, u, s, v, q))
    return (u, s, v) if compute_uv else s

  def qr(self, a, mode="reduced"):
    if mode not in ("reduced",):
      raise core.Unsupported(f"qr mode {mode}")
    m, n = a.shape
    k = min(m, n)
    q, r = self.arr("q", m, k), self.arr("r", k, n)
    diag = []
    for i in range(k):
      for j in range(min(i, n)):
        r[i, j] = 0
      p, x = f"p{len(self.calls)}_{i}", f"a{len(self.calls)}_{i}"
      ph, ab = Poly.cvar(p), Poly.var(x)
      if self.c.flag("vanishing diagonal entry"):
        # named, so that the relations stay apart; its sign is zero
        r[i, i] = ab
        self.phase[ab.key()] = 0
      else:
        r[i, i] = ab * ph
        self.phase[r[i, i].key()] = ph
        self.units |= {p, p + "~"}
      diag.append(ab)
    self.relate(np.conj(q).T.dot(q), np.eye(k, dtype=int).astype(object))
    self.relate(q.dot(r), a)
    self.calls.append(("qr", a, q, r, diag))
    return q, r

  def relate(self, lhs, rhs):
    for x, y in zip(lhs.ravel(), rhs.ravel()):
      self.rel[self.norm(Poly.of(x)).key()] = Poly.of(y)

  def sign(self, x):
    o = np.empty(np.shape(x), dtype=object)
    for i in np.ndindex(*np.shape(x)):
      p = Poly.of(x[i])
      o[i] = 0 if not p else self.phase.get(p.key())
      if o[i] is None:
        raise core.Unsupported("sign of a general expression")
    return o

  def norm(self, p):
    """p p~ = 1 for the phases"""
    r = {}
    for k, v in Poly.of(p).m.items():
      k = list(k)
      for x in [x for x in k if x in self.units]:
        y = PARTNER[x]
        if x in k and y in k:
          k.remove(x)
          k.remove(y)
      k = tuple(sorted(k))
      r[k] = r.get(k, 0) + v
    return Poly(r)

  def holds(self, lhs, rhs):
    if lhs.shape != rhs.shape:
      return False
    for x, y in zip(lhs.ravel(), rhs.ravel()):
      x, y = self.norm(x), self.norm(y)
      if x == y:
        continue
      w = self.rel.get(x.key())
      if w is not None and self.norm(w) == y:
        continue
      # a phase that multiplies every monomial
      ks = list(x.m)
      common = [u for u in (ks[0] if ks else ()) if u in self.units and
                all(u in k for k in ks)]
      red = Poly({tuple(z for z in k if z not in common): v
                  for k, v in x.m.items()})
      w = self.rel.get(red.key())
      if w is None:
        return False
      if common:
        w = w * Poly({tuple(sorted(common)): 1})
      if not self.norm(w) == y:
        return False
    return True

  def __getattr__(self, name):
    raise core.Unsupported(f"linalg.{name}")


class NP:

  def __init__(self, la):
    self.linalg = la
    self.sign = la.sign

  def __getattr__(self, name):
    return getattr(np, name)


class _NS:

  def __init__(self, **k):
    self.__dict__.update(k)

  def __getattr__(self, name):
    raise core.Unsupported(f"array library function {name}")


def TF(la):

  def svd(a):
    u, s, v = la.svd(a, full_matrices=False)
    return s, u, np.conj(v).T

  def cumsum(x, axis=0, exclusive=False, reverse=False):
    if exclusive or axis != 0:
      raise core.Unsupported("cumsum")
    return np.cumsum(x[::-1])[::-1] if reverse else np.cumsum(x)

  ident = lambda x, *a, **k: x
  num = lambda x, dtype=None, **k: x
  diag = lambda r, **k: np.array([r[i, i] for i in range(min(r.shape))],
                                 dtype=object)
  return _NS(
      shape=lambda t, **k: np.array(t.shape, dtype=int),
      reshape=lambda t, s, **k: np.reshape(t, [int(x) for x in s]),
      reduce_prod=lambda x, **k: int(np.prod(np.asarray(x, dtype=int))),
      concat=lambda xs, axis=0, **k: np.concatenate(
          [np.asarray(x, dtype=int) for x in xs], axis=axis),
      size=lambda t, out_type=None, **k: int(np.size(t)), constant=num,
      sqrt=np.sqrt, square=np.square, cumsum=cumsum,
      cast=lambda x, dtype=None, **k: np.asarray(x).astype(int) if np.asarray(
          x).dtype == bool else x,
      minimum=lambda a, b, **k: min(int(a), int(b)),
      maximum=lambda a, b, **k: max(int(a), int(b)),
      where=np.where, ones_like=np.ones_like, transpose=np.transpose,
      int32="int32", int64="int64", reverse=lambda x, axis, **k: x[::-1],
      math=_NS(count_nonzero=lambda x, **k: int(np.count_nonzero(x)),
               sign=la.sign, conj=np.conj, sqrt=np.sqrt, square=np.square,
               cumsum=cumsum, minimum=lambda a, b, **k: min(int(a), int(b))),
      linalg=_NS(svd=svd, qr=lambda a, **k: la.qr(a), diag_part=diag,
                 adjoint=lambda x, **k: np.conj(x).T))


NAMES = ["numpy", "jax", "tensorflow", "linalg"]
FRONT = ["tensornetwork.backends.numpy.numpy_backend:NumPyBackend.",
         "tensornetwork.backends.jax.jax_backend:JaxBackend.",
         "tensornetwork.backends.tensorflow.tensorflow_backend:"
         "TensorFlowBackend.", "tensornetwork.linalg.linalg:"]


class Front:
  """tensornetwork.linalg on Tensors in place of the backend's methods"""

  def __init__(self, b):
    self.b = b

  def convert_to_tensor(self, t):
    return self.b.convert_to_tensor(t)

  def __getattr__(self, method):
    def call(t, *a, **k):
      out = getattr(linalg, method)(Tensor(t, backend=self.b), *a, **k)
      if not all(isinstance(x, Tensor) and x.backend is self.b for x in out):
        raise TypeError("not Tensors of the argument's backend")
      return tuple(x.array for x in out)
    return call


def library(c, name):
  """(backend object, kernels) of the backend `name`"""
  if name == "linalg":
    b, la = library(c, "numpy")
    return Front(b), la
  if c.concrete:
    from tensornetwork.backends import backend_factory
    return backend_factory.get_backend(name), None
  la = Linalg(c)
  if name == "numpy":
    c.patch_obj(numpy_backend, "np", NP(la))
    return object.__new__(numpy_backend.NumPyBackend), la
  if name == "jax":
    c.patch_attr(jax_backend, "jnp", NP(la))
    return object.__new__(jax_backend.JaxBackend), la
  c.patch_attr(tensorflow_backend, "tf", TF(la))
  return object.__new__(tensorflow_backend.TensorFlowBackend), la


SHAPES = [((2, 2), 1), ((3, 2), 1), ((2, 3), -1), ((2, 2, 2), 2), ((3, 3), 1)]
MORE = [((1, 3), 1), ((2, 2, 2, 2), 2), ((4, 4), 1), ((3, 1), 1),
        ((2, 1, 3), 1), ((2, 3, 2), 2), ((2, 2, 4), 2), ((5, 4), -1)]


def shape(c):
  sh, p = c.pick(SHAPES + (MORE if c.thorough else []))
  return sh, p


def ask(backend, c, method, default, t, pivot, *a, **k):
  if pivot == -1 and default and not a:
    return c.value(getattr(backend, method), t, *a, **k)
  return c.value(getattr(backend, method), t, pivot, *a, **k)


def entries(c, sh):
  if c.concrete:
    r = c.rng("t")
    return r.randn(*sh) + 1j * r.randn(*sh)
  a = np.empty(sh, dtype=object)
  for i in np.ndindex(*sh):
    a[i] = Poly.cvar("t_" + "_".join(map(str, i)))
  return a


def same(x, y):
  x, y = np.asarray(x), np.asarray(y)
  return x.shape == y.shape and all(
      (a is b) or (isinstance(a, Poly) and a == b) or
      (not isinstance(a, R) and not isinstance(b, R) and Poly.of(a) ==
       Poly.of(b)) for a, b in zip(x.ravel(), y.ravel()))


@contract("P05", [ND + "svd", TD + "svd"] + [f + "svd" for f in FRONT], modes=("bounded",), limit=150,
          replay=True, trusted=("linalg.svd: factors and a non-increasing, "
                                "non-negative spectrum",),
          note="all entries, spectra and error bounds; up to three singular "
          "values (quick), four (thorough)")
def truncation(c):
  name = c.pick(NAMES)
  sh, pivot = shape(c)
  m = int(np.prod(sh[:pivot]))
  n = int(np.prod(sh)) // m
  k = min(m, n)
  bound = c.pick([None] + list(range(1, k + 2)))
  how = c.pick(["none", "absolute", "relative"])
  b, la = library(c, name)
  if c.concrete:
    return concrete_truncation(c, b, sh, pivot, m, n, bound, how)
  t = entries(c, sh)
  kw = {}
  if bound is not None or c.flag("explicit None"):
    kw["max_singular_values"] = bound
  e = None
  if how != "none":
    e = kw["max_truncation_error"] = c.real("err")
    if how == "relative":
      kw["relative"] = True
    elif c.flag("explicit False"):
      kw["relative"] = False
  u, s, vh, rest = ask(b, c, "svd", c.flag("default pivot"), t, pivot, **kw)
  calls = la.calls
  c.fact("one singular value decomposition is computed", len(calls) == 1)
  if len(calls) != 1:
    return
  _, A, U, S, V, q = calls[0]
  c.fact("the tensor is split at the pivot axis", same(A, t.reshape(m, n)))
  keep = len(s)
  c.fact("kept and discarded singular values are the spectrum, in order",
         same(np.concatenate([s, rest]), S), f"{keep} kept")
  c.fact("the factors are the leading columns and rows",
         same(u, U[:, :keep].reshape(sh[:pivot] + (keep,))) and
         same(vh, V[:keep].reshape((keep,) + sh[pivot:])))
  tail = lambda j: sum(q[j:], z3.RealVal(0))
  top = k if bound is None else min(bound, k)
  c.fact("at most the requested number of singular values is kept",
         keep <= top)
  if e is None:
    c.fact("without an error bound nothing else is discarded", keep == top)
  else:
    lim = R.of(e) if how == "absolute" else R.of(e) * S[0]
    norm = lambda j: R(z3.RealVal(1), tail(j))
    if keep < top:
      c.prove("the norm of the discarded values is within the bound",
              norm(keep) <= lim)
    if keep >= 1:
      c.prove("discarding one more would exceed the bound",
              norm(keep - 1) > lim)
  c.cover()


def concrete_truncation(c, b, sh, pivot, m, n, bound, how):
  k = min(m, n)
  spectra = [[2.0**-i for i in range(k)], [4.0] * k,
             [3.0, 2.0, 2.0, 1.0, 0.0][:k],
             sorted(np.abs(c.rng("s").randn(k)), reverse=True)]
  for diag, spec in itertools.product([True, False], spectra):
    M = np.zeros((m, n))
    for i, x in enumerate(spec):
      M[i, i] = x
    if not diag:
      r = c.rng("uv")
      M = np.linalg.qr(r.randn(m, m))[0] @ M @ np.linalg.qr(r.randn(n, n))[0]
    t = M.reshape(sh)
    conv = (lambda x: b.convert_to_tensor(x))
    u0, s0, v0, _ = b.svd(conv(t), pivot)
    double = np.asarray(s0).dtype == np.float64
    s0 = np.asarray(s0).astype(float)
    errs = [None]
    if how != "none":
      errs = [-1.0, 0.0] + [float(x) for x in s0] + [
          float((x + y) / 2) for x, y in zip(s0, s0[1:])] + [float(
              np.sqrt(np.sum(s0[j:]**2))) * 1.01 for j in range(k)] + [0.3, 0.6]
    for e in errs:
      kw = dict(max_singular_values=bound)
      if e is not None:
        kw.update(max_truncation_error=e, relative=how == "relative")
      if diag:  # leave out what has its default value
        kw = {x: y for x, y in kw.items() if y is not None and y is not False}
      pos = [] if diag and pivot == -1 else [pivot]
      u, s, vh, rest = c.value(b.svd, conv(t), *pos, **kw)
      u, s, vh, rest = map(np.asarray, (u, s, vh, rest))
      keep, top = len(s), k if bound is None else min(bound, k)
      what = f"spectrum {s0.tolist()} bound {bound} err {e} {how}: kept {keep}"
      c.fact("kept and discarded singular values are the spectrum, in order",
             np.allclose(np.concatenate([s, rest]), s0), what)
      c.fact("the factors are the leading columns and rows",
             u.shape == sh[:pivot] + (keep,) and vh.shape == (keep,) + sh[
                 pivot:] and np.allclose(np.tensordot(u * s, vh, 1), np.tensordot(
                     np.asarray(u0)[..., :keep] * s0[:keep],
                     np.asarray(v0)[:keep], 1), atol=1e-6), what)
      c.fact("at most the requested number of singular values is kept",
             keep <= top, what)
      if e is None:
        c.fact("without an error bound nothing else is discarded", keep == top,
               what)
        continue
      lim = e * (s0[0] if how == "relative" else 1.0)
      # compared exactly where the code's floating-point arithmetic is exact:
      # the norm of a single value whose square root comes back
      norm = lambda j: float(np.sqrt(np.sum(s0[j:]**2)))

      def tol(j):
        x = s0[j] if j < k else 0.0
        one = np.count_nonzero(s0[j + 1:]) == 0
        return 0.0 if one and np.sqrt(x * x) == x and (
            double or float(x).is_integer()) else 1e-6

      if keep < top:
        c.fact("the norm of the discarded values is within the bound",
               norm(keep) <= lim + tol(keep), what)
      if keep >= 1:
        c.fact("discarding one more would exceed the bound", norm(keep - 1) >
               lim - tol(keep - 1), what)


@contract("P05", [ND + "qr", ND + "rq", TD + "qr", TD + "rq"] +
          [f + n for f in FRONT for n in ("qr", "rq")],
          modes=("bounded",), limit=150, replay=True,
          trusted=("linalg.qr: isometric factor times upper triangular factor",),
          note="all entries; every pattern of vanishing diagonal entries")
def orthogonal_triangular(c):
  name = c.pick(NAMES)
  sh, pivot = shape(c)
  m = int(np.prod(sh[:pivot]))
  n = int(np.prod(sh)) // m
  k = min(m, n)
  how = c.pick(["qr", "rq"])
  pos = c.flag("non_negative_diagonal")
  b, la = library(c, name)
  t = entries(c, sh)
  if c.concrete and c.rng("deficient").rand() < 0.3:
    t = t * 0 + np.ones(sh)
  tt = b.convert_to_tensor(t) if c.concrete else t
  if pos:
    x, y = ask(b, c, how, pivot == -1 and c.flag("default pivot"), tt, pivot,
               non_negative_diagonal=True)
  else:
    x, y = ask(b, c, how, pivot == -1 and c.flag("default pivot"), tt, pivot,
               *([] if c.flag("default") else [False]))
  x, y = np.asarray(x), np.asarray(y)
  ok = x.shape == sh[:pivot] + (k,) and y.shape == (k,) + sh[pivot:]
  c.fact(f"{how}: shapes of the factors", ok, f"{x.shape} {y.shape}")
  if not ok:
    return
  X, Y, A = x.reshape(m, k), y.reshape(k, n), t.reshape(m, n)
  if how == "qr":
    prod, iso, tri = (X.dot(Y), A), np.conj(X).T.dot(X), Y
  else:
    prod = (np.conj(X.dot(Y)).T, np.conj(A).T)
    iso, tri = np.conj(Y.dot(np.conj(Y).T)), np.conj(X).T
  one = np.eye(k, dtype=int).astype(object)
  if c.concrete:
    holds = lambda p, q: np.allclose(p.astype(complex), q.astype(complex),
                                     atol=1e-4)
  else:
    holds = la.holds
  c.fact(f"{how}: the product is the tensor", holds(*prod))
  c.fact(f"{how}: the orthogonal factor is isometric", holds(iso, one))
  low = [tri[i, j] for i in range(k) for j in range(min(i, n))]
  c.fact(f"{how}: the other factor is triangular",
         all(abs(z) < 1e-4 if c.concrete else not Poly.of(z) for z in low))
  if pos:
    d = [tri[i, i] for i in range(k)]
    if c.concrete:
      c.fact(f"{how}: the diagonal is real and not negative",
             all(abs(z.imag) < 1e-4 and z.real > -1e-4 for z in d), str(d))
    else:
      c.fact(f"{how}: the diagonal is real and not negative",
             len(la.calls) == 1 and all(
                 la.norm(z) == a for z, a in zip(d, la.calls[0][4])), str(d))
  c.cover()
