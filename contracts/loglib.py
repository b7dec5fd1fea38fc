"""Logarithms of sizes and costs, for all sizes.

A size is 10**a for a symbolic real a >= 0 (a is 0, the size 1, or at least
log10 2), a product of sizes is a monomial, a cost is a sum of such products.
`Lg` stands for log10 of a ratio of two such sums and is the entry type of the
object arrays the real solvers run on: + multiplies, - divides, 10**x leaves the
logarithm and .log10() enters it again.  Sums are compared through one real
variable per sum, with the facts  sum >= every summand  and
A <= B  <=>  A + m <= B + m  (instances for all sums of the path)."""
from fractions import Fraction
import math
import numpy as np
import z3
from pyvc import core

ONE = ()


def mono(exps):
  return tuple(sorted((k, v) for k, v in exps.items() if v))


def mmul(a, b, sign=1):
  d = dict(a)
  for k, v in b:
    d[k] = d.get(k, 0) + sign * v
  return mono(d)


def pmul(p, q):
  r = {}
  for a, v in p.items():
    for b, w in q.items():
      k = mmul(a, b)
      r[k] = r.get(k, 0) + v * w
  return r


def padd(p, q):
  r = dict(p)
  for k, v in q.items():
    r[k] = r.get(k, 0) + v
  return r


def key(p):
  return frozenset(p.items())


class State:
  """what is known about sums on the current path"""

  def __init__(self):
    self.sums = {}
    self.trunc = {}
    self.n = 0


ST = State()
VARS = {}


def reset():
  ST.__init__()
  LAZY.clear()


def var(name):
  v = VARS.get(name)
  if v is None:
    v = VARS[name] = z3.Real(name)
  return v


def linear(m):
  t = z3.RealVal(0)
  for k, e in m:
    e = z3.RealVal(str(Fraction(e)))
    t = t + (e if k == "ten" else e * var(k))
  return t


def split10(p):
  """common power of ten of all terms"""
  es = {dict(m).get("ten", Fraction(0)) for m in p}
  if len(es) == 1:
    e = es.pop()
    if e:
      return e, {mmul(m, (("ten", e),), -1): c for m, c in p.items()}
  return Fraction(0), p


def logterm(p):
  """z3 term of log10 of a sum of products"""
  if len(p) == 1:
    (m, c), = p.items()
    if c == 1:
      return linear(m)
  e, p = split10(p)
  k = key(p)
  if k not in ST.sums:
    ST.n += 1
    v = z3.Real(f"sum!{len(core.CTX.decisions)}!{ST.n}")
    ST.sums[k] = (v, p)
    for m, c in p.items():
      core.CTX.assume(v >= linear(m) if c == 1 and len(p) == 1 else
                      v > linear(m))
  return ST.sums[k][0] + z3.RealVal(str(e))


def monotone():
  """A <= B <=> A + m <= B + m for the sums of this path"""
  done = set()
  changed = True
  while changed:
    changed = False
    ps = [p for _, p in ST.sums.values()]
    for i, p in enumerate(ps):
      for q in ps[:i]:
        k = (key(p), key(q))
        if k in done:
          continue
        done.add(k)
        changed = True
        common = {m: min(p[m], q[m]) for m in p if m in q}
        a = {m: c - common.get(m, 0) for m, c in p.items()}
        b = {m: c - common.get(m, 0) for m, c in q.items()}
        a = {m: c for m, c in a.items() if c}
        b = {m: c for m, c in b.items() if c}
        lp, lq = logterm(p), logterm(q)
        if not a or not b:
          core.CTX.assume(lp < lq if not a and b else
                          lp > lq if a else lp == lq)
          continue
        if not common:
          continue
        la, lb = logterm(a), logterm(b)
        core.CTX.assume(z3.And((lp <= lq) == (la <= lb), (lq <= lp) ==
                               (lb <= la)))


class Lg:
  """log10(p / q)"""
  __slots__ = ("p", "q")

  def __init__(self, p, q=None):
    q = {ONE: Fraction(1)} if q is None else q
    if len(q) == 1 and q != {ONE: Fraction(1)}:
      (m, c), = q.items()
      p = {mmul(k, m, -1): v / c for k, v in p.items()}
      q = {ONE: Fraction(1)}
    self.p, self.q = p, q

  @staticmethod
  def of(x):
    if isinstance(x, Lg):
      return x
    if isinstance(x, np.generic):
      x = x.item()
    if isinstance(x, (bool, int, float)) and math.isfinite(x):
      return Lg({mono({"ten": Fraction(x)}): Fraction(1)})
    return None

  @property
  def term(self):
    if self.q != {ONE: Fraction(1)}:
      raise core.Unsupported("comparison of a ratio of sums")
    return logterm(self.p)

  def __add__(self, o):
    if isinstance(o, float) and math.isinf(o):
      return o
    o = Lg.of(o)
    if o is None:
      return NotImplemented
    p, q, r, s = self.p, self.q, o.p, o.q
    if p == s:
      return Lg(r, q)
    if r == q:
      return Lg(p, s)
    return Lg(pmul(p, r), pmul(q, s))

  __radd__ = __add__

  def __neg__(self):
    return Lg(self.q, self.p)

  def __sub__(self, o):
    if isinstance(o, float) and math.isinf(o):
      return -o
    o = Lg.of(o)
    return NotImplemented if o is None else self + (-o)

  def __rsub__(self, o):
    if isinstance(o, float) and math.isinf(o):
      return o
    o = Lg.of(o)
    return NotImplemented if o is None else o + (-self)

  def __mul__(self, o):
    if isinstance(o, np.generic):
      o = o.item()
    if not isinstance(o, (bool, int, float)):
      return NotImplemented
    if len(self.p) != 1 or len(self.q) != 1 or list(self.p.values()) != [1]:
      raise core.Unsupported("multiple of the logarithm of a sum")
    (m, _), = self.p.items()
    f = Fraction(o)
    return Lg({mono({k: v * f for k, v in m}): Fraction(1)})

  __rmul__ = __mul__

  def __truediv__(self, o):
    return self * (1 / o)

  def __rpow__(self, o):
    if o != 10:
      raise core.Unsupported(f"power of {o}")
    return Plain(self.p, self.q)

  def _cmp(self, o, op):
    if isinstance(o, float) and math.isinf(o):
      return op(0, 1 if o > 0 else -1)
    o = Lg.of(o)
    if o is None:
      return NotImplemented
    if self.p == o.p and self.q == o.q:
      return op(0, 0)
    return core.CTX.branch(op(self.term, o.term))

  def __lt__(self, o):
    return self._cmp(o, lambda a, b: a < b)

  def __le__(self, o):
    return self._cmp(o, lambda a, b: a <= b)

  def __gt__(self, o):
    return self._cmp(o, lambda a, b: a > b)

  def __ge__(self, o):
    return self._cmp(o, lambda a, b: a >= b)

  def __eq__(self, o):
    return self._cmp(o, lambda a, b: a == b)

  def __ne__(self, o):
    r = self == o
    return r if r is NotImplemented else not r

  def __bool__(self):
    return self != 0

  __hash__ = None

  def __copy__(self):
    return self

  def __deepcopy__(self, memo):
    return self

  def item(self):
    return self

  def __repr__(self):
    f = lambda p: " + ".join(
        f"{c}*" + "".join(f"{k}^{e} " for k, e in m) for m, c in p.items())
    return f"log({f(self.p)} / {f(self.q)})"


class Plain:
  """p / q"""
  __slots__ = ("p", "q")

  def __init__(self, p, q):
    self.p, self.q = p, q

  def __add__(self, o):
    if isinstance(o, Plain):
      if o.q == self.q:
        return Plain(padd(self.p, o.p), self.q)
      return Plain(padd(pmul(self.p, o.q), pmul(o.p, self.q)),
                   pmul(self.q, o.q))
    if isinstance(o, np.generic):
      o = o.item()
    if not isinstance(o, (int, float)):
      return NotImplemented
    if o == 0:
      return self
    return Plain(padd(self.p, {k: v * Fraction(o) for k, v in self.q.items()}),
                 self.q)

  __radd__ = __add__

  def log10(self):
    return Lg(self.p, self.q)


def same(a, b):
  """equality of two logarithms for all sizes, by normal form"""
  a, b = Lg.of(a), Lg.of(b)
  if a is None or b is None:
    return False
  clean = lambda p: {k: v for k, v in p.items() if v}
  return clean(pmul(a.p, b.q)) == clean(pmul(b.p, a.q))


class LArr(np.ndarray):
  """object array of logarithms"""

  def astype(self, dtype, *a, **k):
    if dtype is int and self.dtype == object:
      out = np.empty(self.shape, dtype=object)
      for i in np.ndindex(*self.shape):
        out[i] = truncated(self[i])
      return out
    return np.ndarray.astype(self, dtype, *a, **k)


  def __lt__(self, o):
    if not (LAZY and self.dtype == object and self.ndim == 2):
      return np.ndarray.__lt__(self, o)
    o = np.broadcast_to(np.asarray(o, dtype=object), self.shape)
    out = np.empty(self.shape, dtype=object)
    for i in np.ndindex(*self.shape):
      out[i] = Lazy(self[i], o[i])
    return out


class Lazy:
  """a comparison that is decided when it is used"""
  __slots__ = ("a", "b")

  def __init__(self, a, b):
    self.a, self.b = a, b

  def __bool__(self):
    return bool(self.a < self.b)


LAZY = []


def larr(a):
  return np.asarray(a, dtype=object).view(LArr)


def truncated(x):
  if not isinstance(x, Lg):
    return int(x)
  k = key(x.p)
  if k not in ST.trunc:
    ST.n += 1
    d = z3.Int(f"trunc!{len(core.CTX.decisions)}!{ST.n}")
    f = x.term
    core.CTX.assume(z3.If(f >= 0, z3.And(d <= f, f < d + 1),
                          z3.And(d - 1 < f, f <= d)))
    ST.trunc[k] = Int(d)
  return ST.trunc[k]


class Int:
  """an integer that is only compared"""
  __slots__ = ("t",)

  def __init__(self, t):
    self.t = t

  def _cmp(self, o, op):
    o = o.t if isinstance(o, Int) else o
    return core.CTX.branch(op(self.t, o)) if not self.t is o else op(0, 0)

  def __lt__(self, o):
    return self._cmp(o, lambda a, b: a < b)

  def __le__(self, o):
    return self._cmp(o, lambda a, b: a <= b)

  def __gt__(self, o):
    return self._cmp(o, lambda a, b: a > b)

  def __ge__(self, o):
    return self._cmp(o, lambda a, b: a >= b)

  def __eq__(self, o):
    return self._cmp(o, lambda a, b: a == b)

  def __ne__(self, o):
    return not self == o

  __hash__ = None


def term(x):
  if isinstance(x, Lg):
    return x.term
  if isinstance(x, Int):
    return x.t
  if isinstance(x, np.generic):
    x = x.item()
  if isinstance(x, (int, float)):
    return z3.RealVal(str(Fraction(x)))
  return core.z(x)


class Shim:
  """numpy as the solvers see it: extremal entries by contract"""

  def __init__(self, c):
    self.c = c

  def __getattr__(self, name):
    return getattr(np, name)

  def zeros(self, shape, dtype=None):
    if dtype is not None:
      return np.zeros(shape, dtype=dtype)
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*a.shape):
      a[i] = Lg({ONE: Fraction(1)})
    return a.view(LArr)

  def _extreme(self, a, low):
    xs = list(a) if isinstance(a, list) else list(np.ravel(a))
    if not any(isinstance(x, (Lg, Int)) for x in xs):
      return np.min(a) if low else np.max(a)
    ts = []
    for x in xs:
      t = term(x)
      if not any(t.eq(o) for o in ts):
        ts.append(t)
    ST.n += 1
    name = f"ext!{len(core.CTX.decisions)}!{ST.n}"
    if len(ts) == 1:
      return xs[0]
    ints = all(z3.is_int(t) for t in ts)
    m = z3.Int(name) if ints else z3.Real(name)
    core.CTX.assume(z3.And([m <= t if low else m >= t for t in ts]))
    core.CTX.assume(z3.Or([m == t for t in ts]))
    if ints:
      return Int(m)
    VARS[name] = m
    return Lg({mono({name: Fraction(1)}): Fraction(1)})

  def max(self, a, *r, **k):
    if r or k or np.asarray(a).dtype != object:
      return np.max(a, *r, **k)
    return self._extreme(a, False)

  def min(self, a, *r, **k):
    if r or k or np.asarray(a).dtype != object:
      return np.min(a, *r, **k)
    return self._extreme(a, True)

  def maximum(self, a, b):
    a, b = np.broadcast_arrays(np.asarray(a), np.asarray(b))
    if a.dtype != object and b.dtype != object:
      return np.maximum(a, b)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
      out[i] = self._extreme([a[i], b[i]], False)
    return out.view(LArr)

  def argmin(self, a, *r, **k):
    if r or k or np.asarray(a).dtype != object:
      return np.argmin(a, *r, **k)
    xs = list(np.ravel(a))
    fin = [i for i, x in enumerate(xs)
           if not (isinstance(x, float) and x == np.inf)]
    ts = {i: term(xs[i]) for i in fin}
    if not fin:
      return 0
    first = {}
    for i in fin:
      if not any(ts[i].eq(ts[j]) for j in first.values()):
        first[i] = i
    us = list(first)
    opts = [(str(i), z3.And([ts[i] < ts[j] if j < i else ts[i] <= ts[j]
                             for j in us if j != i])) for i in us]
    return us[core.CTX.decide(opts)]

  def argsort(self, a, *r, **k):
    if r or k or np.asarray(a).dtype != object:
      return np.argsort(a, *r, **k)
    a = np.asarray(a)
    out = np.empty(a.shape, dtype=np.int64)
    for i in np.ndindex(*a.shape[:-1]):
      out[i] = order(list(a[i]))
    return out


def order(xs):
  """stable ascending order by insertion"""
  out = []
  for i, x in enumerate(xs):
    k = len(out)
    while k > 0 and xs[out[k - 1]] > x:
      k -= 1
    out.insert(k, i)
  return out
