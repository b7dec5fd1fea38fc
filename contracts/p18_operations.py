"""P18: the elementary operations of the dense backends and the public functions
and methods that wrap them, for all element values.

The real methods of the NumPy, JAX and TensorFlow backends, of `Tensor` and of
`tensornetwork.linalg` run on arrays of complex indeterminates; the array library
they call is a contract (NumPy's own indexing semantics for numpy and jax.numpy,
the documented semantics of the TensorFlow functions the backend uses, and
uninterpreted elementwise functions for sqrt, exp, ...).  Shapes, axes, offsets,
permutations and slices are enumerated exhaustively within the stated bounds;
the oracle is written with explicit index loops."""
import itertools
import string
import types
import numpy as np
import tensornetwork as tn
from tensornetwork.backends import backend_factory
from tensornetwork.backends.numpy import numpy_backend
from tensornetwork.backends.jax import jax_backend
from tensornetwork.backends.tensorflow import tensorflow_backend
from tensornetwork.linalg import operations as to
from tensornetwork.linalg import linalg as tl
from tensornetwork.linalg import node_linalg as nl
from tensornetwork.linalg import initialization as ti
from pyvc.contract import contract
from pyvc import core
from contracts.poly import Poly

NAMES = ["numpy", "jax", "tensorflow"]
B_ = {n: f"tensornetwork.backends.{n}.{n}_backend:" for n in NAMES}
CLS = {"numpy": "NumPyBackend", "jax": "JaxBackend",
       "tensorflow": "TensorFlowBackend"}
O_ = "tensornetwork.linalg.operations:"
NODE_ = "tensornetwork.network_components:Node."
N_ = "tensornetwork.linalg.node_linalg:"
T_ = "tensornetwork.tensor:Tensor."
TRUSTED = ("numpy / jax.numpy: NumPy semantics of indexing and of sums of "
           "products", "tensorflow: documented semantics of the functions used",
           "elementwise functions and dense kernels are uninterpreted")


class TShape(tuple):

  def as_list(self):
    return list(self)


class SA(np.ndarray):
  """array of indeterminates as the array library's tensor type"""

  @property
  def shape(self):
    return TShape(np.ndarray.shape.__get__(self))

  @property
  def at(self):
    a = self

    class At:

      def __getitem__(self, idx):

        class Set:

          def set(self, v):
            r = a.copy()
            r[idx] = v
            return r

        return Set()

    return At()


def wrap(x):
  if isinstance(x, np.ndarray):
    return x.astype(object).view(SA)
  if isinstance(x, (Poly, int, float, np.number)):
    o = np.empty((), dtype=object)
    o[()] = x
    return o.view(SA)
  return x


def text(x):
  return str(sorted((k, str(v)) for k, v in Poly.of(x).m.items()))


def opaque(name, *xs):
  """uninterpreted function, applied elementwise"""
  xs = np.broadcast_arrays(*[np.asarray(x, dtype=object) for x in xs])
  o = np.empty(np.ndarray.shape.__get__(xs[0]), dtype=object)
  for i in np.ndindex(*o.shape):
    o[i] = Poly.cvar(f"{name}({','.join(text(x[i]) for x in xs)})")
  return o


def whole(name, a):
  """uninterpreted function of a whole array"""
  o = np.empty((), dtype=object)
  o[()] = Poly.cvar(f"{name}({np.shape(a)};"
                    f"{';'.join(text(x) for x in np.ravel(a))})")
  return o


def kernel(name, a):
  """uninterpreted matrix function"""
  o = np.empty(np.ndarray.shape.__get__(np.asarray(a)), dtype=object)
  s = ";".join(text(x) for x in np.ravel(a))
  for i in np.ndindex(*o.shape):
    o[i] = Poly.cvar(f"{name}{i}({s})")
  return o


ELEM = ["sqrt", "sin", "cos", "exp", "log", "abs", "sign"]


class LA:

  def norm(self, a, *r, **k):
    if r or k:
      raise core.Unsupported("norm with arguments")
    return wrap(whole("norm", a))

  def inv(self, a):
    return wrap(kernel("inv", a))

  def eigh(self, a, *r, **k):
    return wrap(kernel("eigval", np.diagonal(a))), wrap(kernel("eigvec", a))

  def __getattr__(self, name):
    raise core.Unsupported(f"linalg.{name}")


class NP:
  """numpy or jax.numpy on arrays of indeterminates"""
  ndarray = np.ndarray

  def __init__(self):
    self.linalg = LA()

  def __getattr__(self, name):
    if name in ELEM or name == "absolute":
      f = "abs" if name == "absolute" else name
      return lambda x, *a, **k: wrap(opaque(f, x))
    if name == "power":
      return lambda a, b: wrap(opaque("power", a, b))
    f = getattr(np, name)
    if not callable(f) or isinstance(f, type):
      return f

    def g(*a, **k):
      k.pop("precision", None)
      if name == "einsum":
        k["optimize"] = False
      r = f(*a, **k)
      if any(isinstance(x, np.ndarray) and x.dtype == object
             for x in a) or isinstance(r, np.ndarray) and r.dtype == object:
        return wrap(r) if not isinstance(r, (bool, tuple, list)) else r
      return r

    return g


class NS:

  def __init__(self, **k):
    self.__dict__.update(k)

  def __getattr__(self, name):
    raise core.Unsupported(f"array library function {name}")


def dynamic_slice(a, start, sizes):
  d = np.shape(a)
  st = [min(max(int(s), 0), n - int(z)) for s, z, n in zip(start, sizes, d)]
  return wrap(np.asarray(a)[tuple(slice(s, s + int(z))
                                  for s, z in zip(st, sizes))])


def tensorflow_model():
  A = lambda x: np.asarray(x, dtype=object) if not isinstance(
      x, np.ndarray) else x.view(np.ndarray)

  def slice_(t, begin, size):
    sl = []
    for b, s, n in zip(begin, size, np.shape(t)):
      e = n if int(s) == -1 else int(b) + int(s)
      if not 0 <= int(b) <= e <= n:
        raise ValueError("slice out of range")
      sl.append(slice(int(b), e))
    return wrap(A(t)[tuple(sl)])

  def diag_part(t, k=0, **kw):
    if kw:
      raise core.Unsupported("diag_part")
    return wrap(np.diagonal(A(t), offset=k, axis1=-2, axis2=-1))

  def diag(v, k=0, **kw):
    if kw or np.ndim(v) != 1:
      raise core.Unsupported("diag")
    return wrap(np.diag(A(v), k=k))

  def where(m, x, y):
    return wrap(np.where(np.asarray(m).astype(bool), A(x), A(y)))

  def eye(num_rows, num_columns=None, dtype=None, **k):
    return wrap(np.eye(num_rows, num_columns))

  elem = lambda f: lambda x: wrap(opaque(f, A(x)))
  return NS(
      tensordot=lambda a, b, axes: wrap(np.tensordot(A(a), A(b), axes)),
      reshape=lambda t, s: wrap(np.reshape(A(t), [int(x) for x in s])),
      transpose=lambda t, perm=None: wrap(np.transpose(A(t), perm)),
      slice=slice_, concat=lambda xs, axis: np.concatenate(
          [np.asarray(x) for x in xs], axis=axis),
      shape=lambda t: np.array(np.shape(t), dtype=int),
      rank=lambda t: np.ndim(t),
      reduce_prod=lambda x: int(np.prod(np.asarray(x), dtype=int)),
      sqrt=elem("sqrt"), convert_to_tensor=wrap, einsum=lambda e, *t: wrap(
          np.einsum(e, *[A(x) for x in t])),
      eye=eye, ones=lambda shape, dtype=None: wrap(np.ones(shape)),
      zeros=lambda shape, dtype=None: wrap(np.zeros(shape)), where=where,
      matmul=lambda a, b: wrap(np.matmul(A(a), A(b))), float64="float64",
      complex128="complex128", complex64="complex64",
      linalg=NS(norm=lambda a: wrap(whole("norm", a)),
                inv=lambda a: wrap(kernel("inv", a)),
                expm=lambda a: wrap(kernel("expm", a)),
                eigh=lambda a: (wrap(kernel("eigval", np.diagonal(a))),
                                wrap(kernel("eigvec", a))),
                diag_part=diag_part, diag=diag),
      math=NS(conj=lambda x: wrap(np.conj(A(x))),
              sin=elem("sin"), cos=elem("cos"), exp=elem("exp"),
              log=elem("log"), abs=elem("abs"), sign=elem("sign"),
              sqrt=elem("sqrt"), pow=lambda a, b: wrap(opaque("power", A(a), b)),
              reduce_sum=lambda x, axis=None, keepdims=False: wrap(
                  np.sum(A(x), axis=tuple(axis) if isinstance(
                      axis, list) else axis, keepdims=keepdims))))


def library(c, name):
  if c.concrete:
    return backend_factory.get_backend(name)
  if name == "numpy":
    c.patch_obj(numpy_backend, "np", NP())
    c.patch_obj(numpy_backend, "sp", NS(linalg=NS(
        expm=lambda a: wrap(kernel("expm", a)))))
    b = object.__new__(numpy_backend.NumPyBackend)
  elif name == "jax":
    c.patch_attr(jax_backend, "jnp", NP())
    c.patch_attr(jax_backend, "jsp", NS(linalg=NS(
        expm=lambda a: wrap(kernel("expm", a)))))
    c.patch_attr(jax_backend, "libjax", NS(lax=NS(dynamic_slice=dynamic_slice)))
    b = object.__new__(jax_backend.JaxBackend)
    b.jax_precision = "default"
    b._dtype = None
  else:
    c.patch_attr(tensorflow_backend, "tf", tensorflow_model())
    b = object.__new__(tensorflow_backend.TensorFlowBackend)
  b.name = name
  return b


class World:
  """one backend, its tensors and their plain values"""

  def __init__(self, c):
    self.c = c
    self.name = c.pick(NAMES)
    self.be = library(c, self.name)
    self.kept = []

  def tensor(self, name, shape):
    """(backend tensor, plain array)"""
    shape = tuple(int(x) for x in shape)
    if self.c.concrete:
      r = self.c.rng(name + str(shape))
      a = np.asarray(r.randn(*shape) + 1j * r.randn(*shape))
      t = self.be.convert_to_tensor(a.copy())
    else:
      a = np.empty(shape, dtype=object)
      for i in np.ndindex(*shape):
        a[i] = Poly.cvar(name + "_" + "_".join(map(str, i)))
      t = wrap(a.copy())
    self.kept.append((t, a))
    return t, a

  def T(self, t):
    return tn.Tensor(t, backend=self.be)

  def same(self, what, got, want):
    c = self.c
    if isinstance(got, tn.Tensor):
      c.fact(f"{what}: metadata", tuple(got.shape) == np.shape(want) and
             got.ndim == np.ndim(want) and int(got.size) == np.size(want) and
             got.backend.name == self.be.name, f"{got.shape} {got.ndim} {got.size}")
      got = got.array
    if c.concrete:
      got, want = np.asarray(got), np.asarray(want)
      ok = got.shape == want.shape and np.allclose(got, want, atol=1e-9)
      return c.fact(what, ok, f"{got.shape} {want.shape} {str(got)[:150]} "
                    f"{str(want)[:150]}")
    got, want = np.asarray(got, dtype=object), np.asarray(want, dtype=object)
    ok = tuple(got.shape) == tuple(want.shape) and all(
        Poly.of(x) == Poly.of(y) for x, y in zip(got.ravel(), want.ravel()))
    return c.fact(what, ok, f"{got.shape} {want.shape} {str(got)[:150]} "
                  f"{str(want)[:150]}")

  def frame(self):
    for t, a in self.kept:
      self.same("operand unchanged", t, a)

  def refused(self, what, fn, *types_):
    try:
      got, ok = fn(), False
    except (core.EndPath, core.Unsupported):
      raise
    except Exception as e:  # pylint: disable=broad-except
      got, ok = e, isinstance(e, types_ or (ValueError, NotImplementedError))
    self.c.fact(f"refused: {what}", ok, repr(got)[:100])

  def array(self, shape):
    return np.empty(shape, dtype=complex if self.c.concrete else object)

  def zeros(self, shape):
    a = self.array(shape)
    a[...] = 0
    return a

  def indexed(self, shape, f):
    a = self.array(tuple(shape))
    for i in np.ndindex(*a.shape):
      a[i] = f(i)
    return a

  def summed(self, shape, f):
    """entry i = sum of the list f(i)"""
    return self.indexed(shape, lambda i: sum(f(i), 0))

  def run(self, fn, *a, **k):
    return self.c.value(fn, *a, **k)


def shapes(c, lo, hi):
  out = [(), (2,), (1,), (3,), (2, 3), (3, 2), (1, 2), (2, 2), (2, 1, 3),
         (2, 3, 2), (3, 3, 2), (1, 2, 2, 3), (2, 2, 2, 2)]
  out += [(4,), (1, 1), (4, 3), (3, 4), (2, 4), (1, 3, 4), (4, 2, 2), (3, 1, 1)]
  if c.thorough:
    out += [(5,), (5, 2), (4, 4), (3, 4, 2), (2, 3, 4), (1, 1, 1), (3, 3, 3),
            (2, 2, 3, 3), (3, 2, 1, 2), (1, 4, 1, 2), (3, 1, 3, 2)]
  return [s for s in out if lo <= len(s) <= hi]


def K(name, ops, limit=150, wrappers=()):
  targets = [B_[n] + f"{CLS[n]}.{o}" for n in NAMES for o in ops] + list(
      wrappers)

  def deco(fn):

    def run(c):
      w = World(c)
      fn(c, w)
      w.frame()
      c.cover("end")

    run.__name__ = name
    return contract("P18", targets, modes=("bounded",), limit=limit,
                    replay=True, trusted=TRUSTED)(run)

  return deco


@K("permuting", ["transpose"], wrappers=[O_ + "transpose", O_ + "hconj",
                                         O_ + "conj", T_ + "transpose",
                                         T_ + "hconj", T_ + "T", T_ + "H",
                                         T_ + "conj", T_ + "conjugate"])
def permuting(c, w):
  s = c.pick(shapes(c, 0, 4))
  t, a = w.tensor("a", s)
  X = w.T(t)
  n = len(s)
  cj = w.indexed(s, lambda i: a[i].conjugate())
  w.same("conj", w.run(w.be.conj, t), cj)
  w.same("Tensor.conj", w.run(X.conj), cj)
  w.same("Tensor.conjugate", w.run(X.conjugate), cj)
  w.same("linalg.conj", w.run(to.conj, X), cj)
  for p in [None] + list(itertools.permutations(range(n))):
    q = tuple(range(n))[::-1] if p is None else p
    at = lambda b: w.indexed([s[k] for k in q],
                             lambda i: b[tuple(i[q.index(k)]
                                               for k in range(n))])
    want, wc = at(a), at(cj)
    if p is None:
      w.same("transpose by default", w.run(w.be.transpose, t), want)
      w.same("Tensor.T", w.run(lambda: X.T), want)
      w.same("Tensor.H", w.run(lambda: X.H), wc)
      w.same("Tensor.transpose()", w.run(X.transpose), want)
      w.same("linalg.transpose", w.run(to.transpose, X), want)
      w.same("linalg.hconj", w.run(to.hconj, X), wc)
      w.same("Tensor.hconj", w.run(X.hconj), wc)
    else:
      w.same(f"transpose {p}", w.run(w.be.transpose, t, p), want)
      w.same(f"Tensor.transpose {p}", w.run(X.transpose, list(p)), want)
      w.same(f"linalg.transpose {p}", w.run(to.transpose, X, p), want)
      w.same(f"linalg.hconj {p}", w.run(to.hconj, X, p), wc)
      w.same(f"Tensor.hconj {p}", w.run(X.hconj, p), wc)


def factorings(n):
  if n == 1:
    return [(), (1,), (1, 1)]
  out = [(n,), (1, n)]
  for d in range(2, n):
    if n % d == 0:
      out += [(d,) + f for f in factorings(n // d) if f and 1 not in f]
  return out


def row_major(i, d):
  k = 0
  for x, n in zip(i, d):
    k = k * n + x
  return k


def unravel(k, d):
  out = []
  for n in reversed(d):
    out.append(k % n)
    k //= n
  return tuple(reversed(out))


@K("reshaping", ["reshape", "pivot"], wrappers=[O_ + "reshape", O_ + "pivot",
                                     T_ + "reshape", T_ + "ravel", T_ +
                                     "flatten", T_ + "squeeze", T_ + "copy"])
def reshaping(c, w):
  s = c.pick(shapes(c, 0, 4))
  t, a = w.tensor("a", s)
  X = w.T(t)
  size = int(np.prod(s, dtype=int))
  to_ = lambda d: w.indexed(d, lambda i: a[unravel(row_major(i, d), s)])
  for d in factorings(size):
    w.same(f"reshape {d}", w.run(w.be.reshape, t, list(d)), to_(d))
    w.same(f"reshape tuple {d}", w.run(w.be.reshape, t, d), to_(d))
    w.same(f"linalg.reshape {d}", w.run(to.reshape, X, d), to_(d))
    w.same(f"Tensor.reshape {d}", w.run(X.reshape, list(d)), to_(d))
  w.same("Tensor.ravel", w.run(X.ravel), to_((size,)))
  flat = w.run(X.flatten)
  w.same("Tensor.flatten", flat, to_((size,)))
  w.same("Tensor.squeeze", w.run(X.squeeze), to_(tuple(x for x in s if x != 1)))
  cp = w.run(X.copy)
  w.same("Tensor.copy", cp.array, a)
  if w.name == "numpy":
    c.fact("copies do not share storage",
           not np.shares_memory(np.asarray(flat.array), np.asarray(t)) and
           not np.shares_memory(np.asarray(cp.array), np.asarray(t)))
  n = len(s)
  for k in range(-n + 1, n + 1):
    l = int(np.prod(s[:k], dtype=int))
    w.same(f"pivot {k}", w.run(w.be.pivot, t, k), to_((l, size // l)))
    w.same(f"linalg.pivot {k}", w.run(to.pivot, X, k), to_((l, size // l)))
  w.refused("pivot beyond the rank", lambda: w.be.pivot(t, n + 1))


@K("slicing", ["slice", "shape_tuple", "shape_tensor", "shape_prod",
               "shape_concat", "sparse_shape", "item"],
   wrappers=[O_ + "take_slice", O_ + "shape"])
def slicing(c, w):
  s = c.pick([x for x in shapes(c, 0, 3) if np.prod(x) <= 12])
  t, a = w.tensor("a", s)
  X = w.T(t)
  ints = lambda x: tuple(int(i) for i in np.asarray(x).ravel())
  c.fact("shape_tuple", tuple(w.run(w.be.shape_tuple, t)) == s)
  c.fact("sparse_shape", tuple(w.run(w.be.sparse_shape, t)) == s)
  c.fact("shape_tensor", ints(w.run(w.be.shape_tensor, t)) == s)
  c.fact("linalg.shape", tuple(w.run(to.shape, X)) == s)
  if s:
    st = w.run(w.be.shape_tensor, t)
    c.fact("shape_prod", int(w.run(w.be.shape_prod, st)) == int(np.prod(s)))
    c.fact("shape_concat", ints(w.run(w.be.shape_concat, [st, [5, 6]],
                                      axis=-1)) == s + (5, 6))
    every = [[(b, z) for b in range(d) for z in range(1, d - b + 1)] for d in s]
    for bz in itertools.product(*every):
      b, z = tuple(x[0] for x in bz), tuple(x[1] for x in bz)
      want = w.indexed(z, lambda i: a[tuple(x + y for x, y in zip(i, b))])
      w.same(f"slice {b} {z}", w.run(w.be.slice, t, b, z), want)
      w.same(f"take_slice {b} {z}", w.run(to.take_slice, X, b, z), want)
      if w.name == "numpy":       # starts counted from the end
        neg = tuple(x - d for x, d in zip(b, s))
        w.same(f"slice {neg} {z}", w.run(w.be.slice, t, neg, z), want)
    w.refused("slice of another rank",
              lambda: w.be.slice(t, (0,) * (len(s) + 1), s), ValueError)
  if int(np.prod(s, dtype=int)) == 1 and w.c.concrete is False:
    w.same("item", w.run(w.be.item, t), a.ravel()[0])
  if int(np.prod(s, dtype=int)) > 1:
    w.refused("item of several elements", lambda: w.be.item(t), ValueError)


def diag_len(d0, d1, k):
  return max(0, min(d0 + min(k, 0), d1 - max(k, 0)))


@K("diagonals", ["diagonal", "trace", "diagflat"], limit=240,
   wrappers=[O_ + "diagonal", O_ + "trace", O_ + "diagflat"])
def diagonals(c, w):
  s = c.pick(shapes(c, 2, 4))
  t, a = w.tensor("a", s)
  X = w.T(t)
  n = len(s)
  pairs = [(x, y) for x in range(-n, n) for y in range(-n, n)
           if x % n != y % n]
  for x, y in pairs:
    px, py = x % n, y % n
    rest = [i for i in range(n) if i not in (px, py)]

    def entry(i, r, k):
      idx = [0] * n
      for p, v in zip(rest, i):
        idx[p] = v
      idx[px], idx[py] = r + max(0, -k), r + max(0, k)
      return a[tuple(idx)]

    lead = [s[p] for p in rest]
    for k in range(-s[px] + 1, s[py]):
      m = diag_len(s[px], s[py], k)
      want = w.indexed(lead + [m], lambda i: entry(i[:-1], i[-1], k))
      tr = w.summed(lead, lambda i: [entry(i, r, k) for r in range(m)])
      default = (x, y) == (-2, -1)
      what = f"offset {k} axes {x} {y}"
      if w.name == "tensorflow" and not default:
        w.refused("diagonal axes", lambda: w.be.diagonal(
            t, offset=k, axis1=x, axis2=y), NotImplementedError)
      else:
        w.same(f"diagonal {what}", w.run(w.be.diagonal, t, offset=k, axis1=x,
                                         axis2=y), want)
        w.same(f"linalg.diagonal {what}", w.run(
            to.diagonal, X, offset=k, axis1=x, axis2=y), want)
        if default:
          w.same(f"diagonal by default {k}", w.run(w.be.diagonal, t, k), want)
          w.same(f"linalg.diagonal by default {k}", w.run(to.diagonal, X, k),
                 want)
      if w.name == "tensorflow" and k != 0:
        w.refused("trace offset", lambda: w.be.trace(
            t, offset=k, axis1=x, axis2=y), NotImplementedError)
      elif w.name != "tensorflow" or s[px] == s[py]:
        w.same(f"trace {what}", w.run(w.be.trace, t, offset=k, axis1=x,
                                      axis2=y), tr)
        w.same(f"linalg.trace {what}", w.run(to.trace, X, offset=k, axis1=x,
                                             axis2=y), tr)
        if default and k == 0:
          w.same("trace by default", w.run(w.be.trace, t), tr)
          w.same("linalg.trace by default", w.run(to.trace, X), tr)


@K("diagonal_matrices", ["diagflat"], wrappers=[O_ + "diagflat"])
def diagonal_matrices(c, w):
  s = c.pick(shapes(c, 0, 3))
  t, a = w.tensor("a", s)
  f = a.ravel()
  for k in range(-3, 4):
    n = len(f) + abs(k)
    want = w.zeros((n, n))
    for i, x in enumerate(f):
      want[i + max(0, -k), i + max(0, k)] = x
    w.same(f"diagflat {k}", w.run(w.be.diagflat, t, k), want)
    w.same(f"diagflat k={k}", w.run(w.be.diagflat, t, k=k), want)
    w.same(f"linalg.diagflat {k}", w.run(to.diagflat, w.T(t), k), want)
    if k == 0:
      w.same("diagflat by default", w.run(w.be.diagflat, t), want)
      w.same("linalg.diagflat by default", w.run(to.diagflat, w.T(t)), want)


def contraction(w, a, b, xa, xb):
  ra, rb = a.ndim, b.ndim
  fa = [i for i in range(ra) if i not in xa]
  fb = [j for j in range(rb) if j not in xb]
  dims = [np.shape(a)[i] for i in xa]

  def terms(i):
    out = []
    for v in np.ndindex(*dims):
      ia, ib = [0] * ra, [0] * rb
      for p, x in zip(fa, i):
        ia[p] = x
      for p, x in zip(fb, i[len(fa):]):
        ib[p] = x
      for p, q, x in zip(xa, xb, v):
        ia[p], ib[q] = x, x
      out.append(a[tuple(ia)] * b[tuple(ib)])
    return out

  return w.summed([np.shape(a)[i] for i in fa] + [np.shape(b)[j] for j in fb],
                  terms)


@K("contracting", ["tensordot", "outer_product"], limit=240,
   wrappers=[O_ + "tensordot", O_ + "outer", O_ + "kron"])
def contracting(c, w):
  top = 4
  ra, rb = c.pick(top + 1), c.pick(top + 1)
  n = c.pick(min(ra, rb) + 1)
  d = [2, 3, 2, 1]
  for xa in itertools.permutations(range(ra), n):
    for xb in itertools.combinations(range(rb), n):
      # the dimensions follow the pairs
      sa = [d[(i + 1) % 4] for i in range(ra)]
      sb = [d[(3 * j + 2) % 4] for j in range(rb)]
      for i, j in zip(xa, xb):
        sb[j] = sa[i]
      if int(np.prod(sa)) * int(np.prod(sb)) > 80 and n < 2:
        sb = [1 if j not in xb else x for j, x in enumerate(sb)]
      w.kept = []
      t, a = w.tensor("a", sa)
      u, b = w.tensor("b", sb)
      X, Y = w.T(t), w.T(u)
      want = contraction(w, a, b, xa, xb)
      axes = [list(xa), list(xb)]
      w.same(f"tensordot {sa} {sb} {axes}", w.run(w.be.tensordot, t, u, axes),
             want)
      w.same(f"linalg.tensordot {sa} {sb} {axes}", w.run(
          to.tensordot, X, Y, axes), want)
      if w.name == "numpy" and n:
        neg = [[i - ra for i in xa], [j - rb if k % 2 else j
                                      for k, j in enumerate(xb)]]
        w.same(f"tensordot {sa} {sb} {neg}", w.run(w.be.tensordot, t, u, neg),
               want)
      if xa == tuple(range(ra - n, ra)) and xb == tuple(range(n)):
        w.same(f"tensordot {n}", w.run(w.be.tensordot, t, u, n), want)
        w.same(f"linalg.tensordot {n}", w.run(to.tensordot, X, Y, n), want)
      if n == 0:
        w.same("outer_product", w.run(w.be.outer_product, t, u), want)
        w.same("linalg.outer", w.run(to.outer, X, Y), want)
        if ra % 2 == 0 and rb % 2 == 0:
          p, q = ra // 2, rb // 2
          order = list(range(p)) + list(range(ra, ra + q)) + list(
              range(p, ra)) + list(range(ra + q, ra + rb))
          shp = [(list(sa) + list(sb))[k] for k in order]
          w.same("linalg.kron", w.run(to.kron, X, Y), w.indexed(
              shp, lambda i: want[tuple(i[order.index(k)]
                                        for k in range(ra + rb))]))
        else:
          w.refused("kron of an odd rank", lambda: to.kron(X, Y), ValueError)
      w.frame()
  w.kept = []


@K("matrix_products", ["matmul", "einsum"], wrappers=[T_ + "__matmul__",
                                                      O_ + "einsum"])
def matrix_products(c, w):
  batch = c.pick([(), (2,), (1, 2)])
  i, j, k = c.pick([(2, 3, 2), (1, 2, 3), (3, 1, 2)])
  t, a = w.tensor("a", batch + (i, j))
  u, b = w.tensor("b", batch + (j, k))
  want = w.summed(batch + (i, k), lambda x: [
      a[x[:-2] + (x[-2], m)] * b[x[:-2] + (m, x[-1])] for m in range(j)])
  w.same("matmul", w.run(w.be.matmul, t, u), want)
  w.same("Tensor @", w.run(lambda: w.T(t) @ w.T(u)), want)
  v, _ = w.tensor("v", (j,))
  w.refused("matmul with a vector", lambda: w.be.matmul(t, v), ValueError)
  w.refused("matmul of a vector", lambda: w.be.matmul(v, u), ValueError)
  if not batch:
    tr = w.indexed((k, i), lambda x: want[x[1], x[0]])
    w.same("einsum", w.run(w.be.einsum, "ij,jk->ki", t, u), tr)
    w.same("einsum unoptimised", w.run(w.be.einsum, "ij,jk->ki", t, u,
                                       optimize=False), tr)
    w.same("linalg.einsum", w.run(to.einsum, "ij,jk->ki", w.T(t), w.T(u),
                                  optimize=c.flag()), tr)


@K("broadcasting", ["broadcast_left_multiplication",
                    "broadcast_right_multiplication"])
def broadcasting(c, w):
  s = c.pick(shapes(c, 1, 4))
  t, a = w.tensor("a", s)
  r, x = w.tensor("r", (s[-1],))
  l, y = w.tensor("l", (s[0],))
  w.same("broadcast_right_multiplication", w.run(
      w.be.broadcast_right_multiplication, t, r),
         w.indexed(s, lambda i: a[i] * x[i[-1]]))
  w.same("broadcast_left_multiplication", w.run(
      w.be.broadcast_left_multiplication, l, t),
         w.indexed(s, lambda i: y[i[0]] * a[i]))
  m, _ = w.tensor("m", (2, 2))
  w.refused("right factor of order two",
            lambda: w.be.broadcast_right_multiplication(t, m), ValueError)
  w.refused("left factor of order two",
            lambda: w.be.broadcast_left_multiplication(m, t), ValueError)


@K("arithmetic", ["addition", "subtraction", "multiply", "divide"],
   wrappers=[T_ + f for f in ("__add__", "__sub__", "__rsub__", "__mul__",
                              "__truediv__")])
def arithmetic(c, w):
  s = c.pick(shapes(c, 0, 3))
  t, a = w.tensor("a", s)
  u, b = w.tensor("b", s)
  X, Y = w.T(t), w.T(u)
  f = lambda g: w.indexed(s, lambda i: g(a[i], b[i]))
  w.same("addition", w.run(w.be.addition, t, u), f(lambda x, y: x + y))
  w.same("subtraction", w.run(w.be.subtraction, t, u), f(lambda x, y: x - y))
  w.same("multiply", w.run(w.be.multiply, t, u), f(lambda x, y: x * y))
  w.same("Tensor +", w.run(lambda: X + Y), f(lambda x, y: x + y))
  w.same("Tensor -", w.run(lambda: X - Y), f(lambda x, y: x - y))
  w.same("Tensor *", w.run(lambda: X * Y), f(lambda x, y: x * y))
  w.same("divide by a number", w.run(w.be.divide, t, 4), f(
      lambda x, y: x / 4))
  for k in (4, 0.5):
    w.same("Tensor / number", w.run(lambda: X / k), f(lambda x, y: x / k))
    w.same("Tensor * number", w.run(lambda: X * k), f(lambda x, y: x * k))
    w.same("number * Tensor", w.run(lambda: k * X), f(lambda x, y: x * k))
    w.same("Tensor + number", w.run(lambda: X + k), f(lambda x, y: x + k))
    w.same("number + Tensor", w.run(lambda: k + X), f(lambda x, y: x + k))
    w.same("Tensor - number", w.run(lambda: X - k), f(lambda x, y: x - k))
    w.same("number - Tensor", w.run(lambda: k - X), f(lambda x, y: k - x))
  other = types.SimpleNamespace(name="other")
  O = tn.Tensor.__new__(tn.Tensor)
  O.array, O.backend, O.shape, O.ndim = t, other, s, len(s)
  for what, g in (("+", lambda: X + O), ("-", lambda: X - O),
                  ("*", lambda: X * O), ("/", lambda: X / O),
                  ("@", lambda: X @ O), ("outer", lambda: to.outer(X, O)),
                  ("tensordot", lambda: to.tensordot(X, O, 0)),
                  ("kron", lambda: to.kron(X, O)),
                  ("einsum", lambda: to.einsum("i,i->", X, O, optimize=True))):
    w.refused(f"mixed backends {what}", g, ValueError)


@K("elementwise", ELEM + ["power", "norm", "inv", "expm", "eigh"],
   wrappers=[O_ + f for f in ELEM] + ["tensornetwork.linalg.linalg:" + f
                                      for f in ("norm", "inv", "expm",
                                                "eigh")])
def elementwise(c, w):
  s = c.pick(shapes(c, 0, 3))
  t, a = w.tensor("a", s)
  X = w.T(t)
  for f in ELEM:
    if c.concrete:
      if f == "sign":
        continue
      want = getattr(np, f)(a)
    else:
      want = opaque(f, a)
    w.same(f, w.run(getattr(w.be, f), t), want)
    w.same("linalg." + f, w.run(getattr(to, f), X), want)
  if not c.concrete:
    w.same("power", w.run(w.be.power, t, 2), opaque("power", a, 2))
    u, b = w.tensor("b", s)
    w.same("elementwise power", w.run(w.be.power, t, u), opaque("power", a, b))
    w.same("norm", w.run(w.be.norm, t), whole("norm", a))
    w.same("linalg.norm", w.run(tl.norm, X), whole("norm", a))
  if len(s) == 2 and s[0] == s[1] and not c.concrete:
    for f in ("inv", "expm"):
      w.same(f, w.run(getattr(w.be, f), t), kernel(f, a))
      w.same("linalg." + f, w.run(getattr(tl, f), X), kernel(f, a))
    for g, x in ((w.be.eigh, t), (tl.eigh, X)):
      e, v = w.run(g, x)
      w.same("eigh: eigenvalues", e, kernel("eigval", np.diagonal(a)))
      w.same("eigh: eigenvectors", v, kernel("eigvec", a))
  if len(s) > 2:
    w.refused("inverse beyond matrices", lambda: w.be.inv(t), ValueError)
  if len(s) != 2 or s[0] != s[1]:
    w.refused("expm beyond square matrices", lambda: w.be.expm(t), ValueError)


@K("sums", ["sum", "index_update"])
def sums(c, w):
  s = c.pick(shapes(c, 1, 3))
  t, a = w.tensor("a", s)
  n = len(s)
  for r in range(1, n + 1):
    for ax in itertools.combinations(range(n), r):
      for keep in (False, True):
        shp = [1 if i in ax else d for i, d in enumerate(s)] if keep else [
            d for i, d in enumerate(s) if i not in ax]

        def terms(i):
          i = list(i)
          free = iter([x for k, x in enumerate(i) if k not in ax]
                      if keep else i)
          base = [None if k in ax else next(free) for k in range(n)]
          out = []
          for v in np.ndindex(*[s[k] for k in ax]):
            idx = list(base)
            for k, x in zip(ax, v):
              idx[k] = x
            out.append(a[tuple(idx)])
          return out

        want = w.summed(shp, terms)
        w.same(f"sum {ax} {keep}", w.run(w.be.sum, t, axis=ax, keepdims=keep),
               want)
        if r == n:
          w.same(f"sum over all {keep}", w.run(w.be.sum, t, keepdims=keep),
                 want)
  size = int(np.prod(s))
  masks = range(2**size) if size <= 3 else [0, 1, 5, 2**size - 1, 2**(size - 1)]
  for k in masks:
    m = np.array([(k >> i) & 1 for i in range(size)], dtype=bool).reshape(s)
    mk = w.be.convert_to_tensor(m) if c.concrete else m
    if c.concrete:
      v = w.be.convert_to_tensor(np.asarray(7.0 + 0j))
    else:
      v = 7
    w.same(f"index_update {k}", w.run(w.be.index_update, t, mk, v),
           w.indexed(s, lambda i: 7 if m[i] else a[i]))


@K("initialising", ["eye", "ones", "zeros"],
   wrappers=["tensornetwork.linalg.initialization:" + f for f in
             ("eye", "ones", "zeros", "ones_like", "zeros_like",
              "initialize_tensor")] + [N_ + f for f in ("eye", "ones", "zeros",
                                                        "initialize_node")])
def initialising(c, w):
  s = c.pick(shapes(c, 0, 3))
  const = lambda v: w.indexed(s, lambda i: v)
  made = [("", lambda f, *a, **k: getattr(w.be, f)(*a, **k)),
          ("Tensor ", lambda f, *a, **k: getattr(ti, f)(*a, backend=w.be, **k)),
          ("node ", lambda f, *a, **k: getattr(nl, f)(*a, backend=w.be,
                                                       **k).tensor)]
  for what, mk in made:
    w.same(what + "ones", w.run(mk, "ones", s), const(1))
    w.same(what + "zeros", w.run(mk, "zeros", s), const(0))
    for n in range(1, 4):
      for m in (None, 1, 2, 4):
        d = (n, n if m is None else m)
        w.same(f"{what}eye {n} {m}", w.run(mk, "eye", n, M=m), w.indexed(
            d, lambda i: int(i[0] == i[1])))


@K("node_helpers", [], wrappers=[N_ + f for f in ("norm", "conj", "transpose",
                                                  "kron")])
def node_helpers(c, w):
  s = c.pick(shapes(c, 0, 3))
  t, a = w.tensor("a", s)
  n = len(s)
  names = [f"x{i}" for i in range(n)]
  node = tn.Node(t, name="n", axis_names=list(names), backend=w.be)
  before = list(node.edges)

  def intact():
    w.same("node unchanged", node.tensor, a)
    c.fact("edges and names unchanged", all(
        x is y for x, y in zip(node.edges, before)) and
           list(node.axis_names) == names and node.name == "n" and
           all(e.node1 is node and e.axis1 == i and e.is_dangling()
               for i, e in enumerate(node.edges)))

  cj = w.run(nl.conj, node)
  w.same("node conj", cj.tensor, w.indexed(s, lambda i: a[i].conjugate()))
  c.fact("node conj: axis names", list(cj.axis_names) == names)
  c.fact("node conj: a new node", cj is not node and all(
      e.node1 is cj for e in cj.edges))
  if not c.concrete:
    w.same("node norm", w.run(nl.norm, node), whole("norm", a))
  intact()
  for p in itertools.permutations(range(n)):
    for style in (0, 1):
      q = [names[i] if (i + style) % 2 else i for i in p]
      x = w.run(nl.transpose, node, q)
      w.same(f"node transpose {q}", x.tensor, w.indexed(
          [s[i] for i in p], lambda i: a[tuple(i[p.index(k)]
                                              for k in range(n))]))
      c.fact("node transpose: axis names",
             list(x.axis_names) == [names[i] for i in p], str(x.axis_names))
      c.fact("node transpose: a new node", x is not node and all(
          e.node1 is x and e.axis1 == i for i, e in enumerate(x.edges)))
      intact()


@K("node_arithmetic", [], wrappers=[NODE_ + f for f in (
    "__add__", "__sub__", "__mul__", "__truediv__", "op_protection")])
def node_arithmetic(c, w):
  s = c.pick(shapes(c, 0, 3))
  t, a = w.tensor("a", s)
  u, b = w.tensor("b", s)
  names = [f"x{i}" for i in range(len(s))]
  if not c.concrete:  # the backend looked up by name is the one under contract
    find = backend_factory.get_backend
    c.patch_obj(backend_factory, "get_backend", lambda b: w.be
                if b == w.be.name else find(b))
  X = tn.Node(t, name="n", axis_names=list(names), backend=w.be)
  Y = tn.Node(u, name="m", backend=w.be)
  f = lambda g: w.indexed(s, lambda i: g(a[i], b[i]))
  for what, op, want in [
      ("+", lambda: X + Y, f(lambda x, y: x + y)),
      ("-", lambda: X - Y, f(lambda x, y: x - y)),
      ("*", lambda: X * Y, f(lambda x, y: x * y)),
      ("+ number", lambda: X + 4, f(lambda x, y: x + 4)),
      ("- number", lambda: X - 4, f(lambda x, y: x - 4)),
      ("* number", lambda: X * 4, f(lambda x, y: x * 4)),
      ("/ number", lambda: X / 4, f(lambda x, y: x / 4))]:
    r = w.run(op)
    w.same("Node " + what, r.tensor, want)
    c.fact(f"Node {what}: a new node with dangling edges of its own",
           r is not X and r is not Y and len(r.edges) == len(s) and all(
               e.node1 is r and e.axis1 == i and e.is_dangling()
               for i, e in enumerate(r.edges)))
    c.fact(f"Node {what}: backend", r.backend.name == w.be.name,
           r.backend.name)
    w.same("left operand", X.tensor, a)
    w.same("right operand", Y.tensor, b)
    c.fact("operands keep their edges", all(
        e.node1 is n and e.axis1 == i and e.is_dangling() for n in (X, Y)
        for i, e in enumerate(n.edges)))
  for bad in ("2", [1], t if s else None):
    w.refused("not a number or a node", lambda: X + bad, TypeError)


@K("node_kronecker", [], wrappers=[N_ + "kron"])
def node_kronecker(c, w):
  k = 1 + c.pick(3)
  ss = [c.pick([(), (2, 3), (2, 1, 2, 2)] if i != 1 else [(), (2, 3)])
        for i in range(k)]
  if int(np.prod([np.prod(s) for s in ss])) > 150:
    ss = [(2, 1, 1, 2) if len(s) == 4 else s for s in ss]
  ts = [w.tensor("abc"[i], s) for i, s in enumerate(ss)]
  nodes = [tn.Node(t, backend=w.be) for t, _ in ts]
  first = [e for m in nodes for e in m.edges[:len(m.shape) // 2]]
  second = [e for m in nodes for e in m.edges[len(m.shape) // 2:]]
  pos = [(m, x) for h in (0, 1) for m, s in enumerate(ss)
         for x in (range(len(s) // 2) if h == 0 else
                   range(len(s) // 2, len(s)))]

  def entry(i):
    idx = [[0] * len(s) for s in ss]
    for (m, x), v in zip(pos, i):
      idx[m][x] = v
    p = 1
    for (_, a), j in zip(ts, idx):
      p = a[tuple(j)] * p
    return p

  r = w.run(nl.kron, nodes)
  w.same("kron", r.tensor, w.indexed([ss[m][x] for m, x in pos], entry))
  c.fact("kron: order of the edges", len(r.edges) == len(pos) and all(
      x is y for x, y in zip(r.edges, first + second)))
  c.fact("kron: the edges belong to the result", all(
      e.node1 is r and e.axis1 == i for i, e in enumerate(r.edges)))
  odd = tn.Node(w.tensor("z", (2,))[0], backend=w.be)
  w.refused("kron of an odd order", lambda: nl.kron([odd]), ValueError)
