"""Krylov vectors of an arbitrary Hermitian map from an arbitrary start vector.

A component of a vector is a combination of the components of v, Av, A^2 v, ...;
the scalars are rational functions of the moments m_k = <v, A^k v> (real for a
Hermitian map) extended by square roots of norms, and are linear in the entries
of an eigenvector that `eigh` returned.  The inner product of A^p v and A^q v is
m_(p+q), shared among the components in unknown parts e_i with sum one, so that
only the sum over all components, with the left factor conjugated, is a
moment."""
import numbers
import numpy as np
from sympy import QQ
from sympy.polys.fields import field
from pyvc import core

NM, NC = 10, 4
_names = [f"m{i}" for i in range(NM)] + [f"e{i}" for i in range(NC)] + \
    [f"x{i}" for i in range(40)]
FIELD, *_gens = field(_names, QQ)
M, E, X = _gens[:NM], _gens[NM:NM + NC], _gens[NM + NC:]


class State:

  def __init__(self, comps=1):
    self.roots, self.calls, self.comps, self.nx = [], [], comps, 0
    self.applied = 0

  def fresh(self):
    self.nx += 1
    if self.nx > 30:
      raise core.Unsupported("too many unknown scalars")
    return Sc({(frozenset(), None): X[self.nx - 1]})

  def share(self, i):
    return E[i] if i < self.comps - 1 else 1 - sum(E[:self.comps - 1],
                                                   FIELD.zero)


ST = State()


def reset(comps):
  ST.__init__(comps)


class Sc:
  """scalar"""
  __slots__ = ("d",)

  def __init__(self, d):
    self.d = {k: v for k, v in d.items() if v}

  @staticmethod
  def of(x):
    if isinstance(x, Sc):
      return x
    if isinstance(x, np.generic):
      x = x.item()
    if isinstance(x, complex) and x.imag == 0:
      x = x.real
    if isinstance(x, float) and x == int(x):
      x = int(x)
    if isinstance(x, int):
      return Sc({(frozenset(), None): FIELD(x)})
    return None

  def __add__(self, o):
    o = None if isinstance(o, np.ndarray) else Sc.of(o)
    if o is None:
      return NotImplemented
    d = dict(self.d)
    for k, v in o.d.items():
      d[k] = d[k] + v if k in d else v
    return Sc(d)

  __radd__ = __add__

  def __neg__(self):
    return Sc({k: -v for k, v in self.d.items()})

  def __sub__(self, o):
    o = None if isinstance(o, np.ndarray) else Sc.of(o)
    return NotImplemented if o is None else self + (-o)

  def __rsub__(self, o):
    o = None if isinstance(o, np.ndarray) else Sc.of(o)
    return NotImplemented if o is None else o + (-self)

  def __mul__(self, o):
    if isinstance(o, (np.ndarray, Vec, Bra)):
      return NotImplemented
    o = Sc.of(o)
    if o is None:
      return NotImplemented
    d = {}
    for (r, s), v in self.d.items():
      for (q, t), w in o.d.items():
        if s is not None and t is not None:
          raise core.Unsupported("product of entries of eigenvectors")
        p = v * w
        for b in r & q:
          p = p * ST.roots[b]
        k = (r ^ q, s if s is not None else t)
        d[k] = d[k] + p if k in d else p
    return Sc(d)

  __rmul__ = __mul__

  def __truediv__(self, o):
    if isinstance(o, np.ndarray):
      return NotImplemented
    o = Sc.of(o)
    if o is None:
      return NotImplemented
    if len(o.d) != 1:
      raise core.Unsupported("quotient by a sum")
    ((r, s), v), = o.d.items()
    if s is not None:
      raise core.Unsupported("quotient by an entry of an eigenvector")
    q = FIELD.one / v
    for b in r:
      q = q / ST.roots[b]
    return self * Sc({(r, None): q})

  def __rtruediv__(self, o):
    o = Sc.of(o)
    return NotImplemented if o is None else o / self

  def conjugate(self):
    return self

  conj = conjugate

  @property
  def real(self):
    return self

  def rational(self):
    """the value when it is a rational number"""
    if not self.d:
      return 0
    if len(self.d) == 1:
      (k, v), = self.d.items()
      if k == (frozenset(), None) and not any(
          any(m) for p in (v.numer, v.denom) for m in p.keys()):
        return v.numer.coeff(1) / v.denom.coeff(1)
    return None

  def sqrt(self):
    q = self.rational()
    if q == 1 or q == 0:
      return Sc.of(int(q))
    if set(self.d) != {(frozenset(), None)}:
      return ST.fresh()
    v = self.d[(frozenset(), None)]
    for i, r in enumerate(ST.roots):
      if r == v:
        break
    else:
      ST.roots.append(v)
      i = len(ST.roots) - 1
    return Sc({(frozenset([i]), None): FIELD.one})

  def __abs__(self):
    return Size(self)

  def __eq__(self, o):
    o = Sc.of(o)
    return o is not None and not (self - o).d

  __hash__ = None

  def __repr__(self):
    return " + ".join(f"({v}){sorted(k[0])}{k[1] or ''}"
                      for k, v in self.d.items()) or "0"


class Size:
  """a magnitude: only compared with tolerances"""

  def __init__(self, s):
    self.s = s

  def __lt__(self, o):
    q = self.s.rational() if self.s is not None else None
    if q is not None:
      return float(abs(q)) < float(o)
    small = core.CTX.choose(2) == 1
    if small:
      ST.small = True
    return small

  def __ge__(self, o):
    return not self < o

  __le__ = __lt__
  __gt__ = __ge__

  def __abs__(self):
    return self


class Vec:
  """component i of a vector"""
  __slots__ = ("i", "c", "unit")

  def __init__(self, i, c, unit=None):
    self.i, self.c, self.unit = i, {k: v for k, v in c.items() if v.d}, unit

  def __add__(self, o):
    if isinstance(o, (int, float, complex)) and o == 0:
      return self
    if not isinstance(o, Vec):
      return NotImplemented
    if o.i != self.i or self.unit or o.unit:
      return Vec(("mixed", self.i, o.i), {0: ST.fresh()})
    c = dict(self.c)
    for k, v in o.c.items():
      c[k] = c[k] + v if k in c else v
    return Vec(self.i, c)

  __radd__ = __add__

  def __neg__(self):
    return self * -1

  def __sub__(self, o):
    if isinstance(o, (int, float, complex)) and o == 0:
      return self
    return self + (-o) if isinstance(o, Vec) else NotImplemented

  def __rsub__(self, o):
    return (-self) + o

  def __mul__(self, o):
    if isinstance(o, Vec):      # a product without conjugation
      return ST.fresh()
    if isinstance(o, (np.ndarray, Bra)):
      return NotImplemented
    o = Sc.of(o)
    if o is None:
      return NotImplemented
    return Vec(self.i, {k: v * o for k, v in self.c.items()})

  __rmul__ = __mul__

  def __truediv__(self, o):
    if isinstance(o, Norm):
      return o.divide(self)
    o = None if isinstance(o, np.ndarray) else Sc.of(o)
    if o is None:
      return NotImplemented
    return Vec(self.i, {k: v / o for k, v in self.c.items()})

  def conjugate(self):
    return Bra(self)

  conj = conjugate

  def same(self, o):
    return isinstance(o, Vec) and self.i == o.i and \
        self.c.keys() == o.c.keys() and all(
            self.c[k] == o.c[k] for k in self.c)

  def __repr__(self):
    return f"[{self.i}: {self.c}]"


class Bra:
  """conjugate of a component"""
  __slots__ = ("v",)

  def __init__(self, v):
    self.v = v

  def __mul__(self, o):
    if isinstance(o, Vec):
      return inner(self.v, o)
    if isinstance(o, Bra):
      return ST.fresh()
    if isinstance(o, np.ndarray):
      return NotImplemented
    o = Sc.of(o)
    return NotImplemented if o is None else Bra(self.v * o)

  __rmul__ = __mul__

  def conjugate(self):
    return self.v

  conj = conjugate


def inner(a, b):
  """conj(a) * b of two components"""
  if a.i != b.i or not isinstance(a.i, int):
    return ST.fresh()
  s = Sc({})
  for p, x in a.c.items():
    for q, y in b.c.items():
      s = s + x * y * Sc({(frozenset(), None): M[p + q] * ST.share(a.i)})
  return s


def product(a, b):
  s = Sc({})
  for x, y in zip(a, b):
    s = s + (inner(x, y) if isinstance(x, Vec) and isinstance(y, Vec)
             else Sc({}))
  return s


class Norm:
  """norm of a vector with entries of an eigenvector"""

  def __init__(self, xs):
    self.xs = list(xs)

  def divide(self, v):
    ok = any(v.same(x) for x in self.xs)
    return Vec(v.i, dict(v.c), unit=ok or None)


def norm(a):
  """contract of the 2-norm"""
  xs = [x for x in np.ravel(a)]
  if any(isinstance(x, Value) for x in xs):
    return Size(None)
  if any(k[1] is not None for x in xs if isinstance(x, Vec)
         for s in x.c.values() for k in s.d):
    return Norm(xs)
  return product(xs, xs).sqrt()


class Value:
  """i-th eigenvalue of one call (or a difference of eigenvalues)"""

  def __init__(self, call, i):
    self.call, self.i = call, i

  def __sub__(self, o):
    return Value(None, None)

  def conjugate(self):
    return self

  @property
  def real(self):
    return self


def eigh(t):
  """contract of np.linalg.eigh: ascending eigenvalues, eigenvectors in the
  columns, of the matrix given by the lower triangle"""
  n = len(t)
  low = [[Sc.of(t[max(i, j)][min(i, j)]) for j in range(n)] for i in range(n)]
  call = len(ST.calls)
  ST.calls.append(low)
  w = np.empty((n,), dtype=object)
  u = np.empty((n, n), dtype=object)
  for j in range(n):
    w[j] = Value(call, j)
    for i in range(n):
      u[i, j] = Sc({(frozenset(), (call, j, i)): FIELD.one})
  return w, u


def times_value(s, val):
  """(val * s) with val * u_i replaced by (T u)_i"""
  t = ST.calls[val.call]
  out = Sc({})
  for (r, y), v in s.d.items():
    if y is None or y[0] != val.call or y[1] != val.i:
      return None
    for j, x in enumerate(t[y[2]]):
      out = out + x * Sc({(r, (y[0], y[1], j)): v})
  return out


class Linalg:

  def __getattr__(self, name):
    return getattr(np.linalg, name)

  def norm(self, a, *r, **k):
    if np.asarray(a).dtype != object:
      return np.linalg.norm(a, *r, **k)
    if r or k:
      raise core.Unsupported("norm with further arguments")
    return norm(a)

  def eigh(self, a, *r, **k):
    if r or k or np.asarray(a).dtype != object:
      raise core.Unsupported("eigh")
    return eigh(np.asarray(a))


class Shim:
  """numpy as the solvers see it: norm and eigh by contract"""

  def __init__(self):
    self.linalg = Linalg()

  def __getattr__(self, name):
    return getattr(np, name)


numbers.Number.register(Sc)
numbers.Number.register(Norm)
