"""Polynomials over the rationals in real and complex variables, used as entries
of dtype=object arrays: identities between them hold for all values."""
from fractions import Fraction
import numpy as np

PARTNER = {}


class Poly:
  """Polynomial with rational coefficients: {sorted variable tuple: coeff}."""
  __slots__ = ("m",)

  def __init__(self, m):
    self.m = {k: v for k, v in m.items() if v}

  @staticmethod
  def var(name):
    return Poly({(name,): Fraction(1)})

  @staticmethod
  def cvar(name):
    PARTNER[name] = name + "~"
    PARTNER[name + "~"] = name
    return Poly({(name,): Fraction(1)})

  def key(self):
    return frozenset(self.m.items())

  @staticmethod
  def of(x):
    if isinstance(x, Poly):
      return x
    if isinstance(x, (complex, np.complexfloating)):
      if x.imag:
        raise TypeError("complex coefficient")
      x = float(x.real)
    return Poly({(): Fraction(x)}) if x else Poly({})

  def _bin(self, o):
    if isinstance(o, np.ndarray):
      return None
    try:
      return Poly.of(o)
    except (TypeError, ValueError):
      return None

  def __add__(self, o):
    o = self._bin(o)
    if o is None:
      return NotImplemented
    r = dict(self.m)
    for k, v in o.m.items():
      r[k] = r.get(k, 0) + v
    return Poly(r)

  __radd__ = __add__

  def __mul__(self, o):
    o = self._bin(o)
    if o is None:
      return NotImplemented
    r = {}
    for k, v in self.m.items():
      for l, w in o.m.items():
        q = tuple(sorted(k + l))
        r[q] = r.get(q, 0) + v * w
    return Poly(r)

  __rmul__ = __mul__

  def __neg__(self):
    return self * -1

  def __sub__(self, o):
    o = self._bin(o)
    return NotImplemented if o is None else self + (-o)

  def __rsub__(self, o):
    return (-self) + o

  def __truediv__(self, o):
    return self * (Fraction(1) / Fraction(o))

  def __pow__(self, n):
    if not (isinstance(n, (int, np.integer)) and n >= 0):
      return NotImplemented
    r = Poly.of(1)
    for _ in range(int(n)):
      r = r * self
    return r

  def conjugate(self):
    """Swaps every complex variable x with x~ (real ones have no partner)."""
    return Poly({tuple(sorted(PARTNER.get(v, v) for v in k)): c
                 for k, c in self.m.items()})

  conj = conjugate

  @property
  def flat(self):  # as a numpy scalar
    return [self]

  def __eq__(self, o):
    o = self._bin(o)
    return o is not None and self.m == o.m

  __hash__ = None

  def __bool__(self):
    return bool(self.m)

  def __repr__(self):
    return " + ".join(f"{v}*{'*'.join(k)}" for k, v in self.m.items()) or "0"
