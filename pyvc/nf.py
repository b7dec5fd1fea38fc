"""The free tensor algebra: exact normal forms of tensor expressions.

A tensor is a linear combination of products of atoms whose legs carry wires
(Einstein sum: a wire that is not an output is summed).  Entries and dimensions
are arbitrary, so equality of normal forms is equality for all entries and all
dimensions.  Decompositions and isometries are rewrite rules (their contracts).
"""
import itertools
import numpy as np
import z3
from .core import *
from .data import *
from tensornetwork.backends.abstract_backend import AbstractBackend


class NFState:
  """Per path: wire dimensions and rewrite rules."""

  def __init__(self):
    self.dims = {}
    self.rules = []
    self.count = itertools.count(1)


def S():
  st = getattr(CTX, "nf", None)
  if st is None or st[0] is not CTX.counter:
    st = (CTX.counter, NFState())
    CTX.nf = st
  return st[1]


def wire(dim):
  w = next(S().count)
  S().dims[w] = dim
  return w


def dim_of(group):
  d = 1
  for w in group:
    d = S().dims[w] * d if not isinstance(d, int) or d != 1 else S().dims[w]
  return d


def dim_poly(d):
  return z3.simplify(z(d), som=True, sort_sums=True) if isinstance(
      d, Sym) else d


def dim_eq(a, b):
  a, b = dim_poly(a), dim_poly(b)
  if isinstance(a, int) and isinstance(b, int):
    return a == b
  d = z3.simplify(z(wrap(a) if isinstance(a, z3.ExprRef) else a) -
                  z(wrap(b) if isinstance(b, z3.ExprRef) else b), som=True)
  if z3.is_int_value(d):
    return d.as_long() == 0
  return CTX.feasible(d != 0) == z3.unsat


class Atom:
  __slots__ = ("name", "conj", "legs")

  def __init__(self, name, conj, legs):
    self.name, self.conj, self.legs = name, conj, legs

  def key(self):
    return (self.name, self.conj, len(self.legs))

  def __repr__(self):
    return f"{self.name}{'*' if self.conj else ''}{list(map(list, self.legs))}"


def name_eq(a, b):
  """Atom names are strings or tuples that may contain index terms."""
  if isinstance(a, tuple) and isinstance(b, tuple):
    return len(a) == len(b) and all(name_eq(x, y) for x, y in zip(a, b))
  if isinstance(a, (z3.ExprRef, Sym)) or isinstance(b, (z3.ExprRef, Sym)):
    if isinstance(a, str) or isinstance(b, str):
      return False
    d = z3.simplify(z(a) == z(b))
    if z3.is_true(d):
      return True
    if z3.is_false(d):
      return False
    return CTX.feasible(z3.Not(d)) == z3.unsat
  return a == b


def sub_group(g, m):
  out = ()
  for w in g:
    r = m.get(w)
    out += (w,) if r is None else (r if isinstance(r, tuple) else (r,))
  return out


class Term:
  """atoms, output groups and the summed wires."""

  def __init__(self, atoms, out, bound):
    self.atoms, self.out, self.bound = list(atoms), list(out), set(bound)

  def subst(self, m):
    b = set()
    for w in self.bound:
      r = m.get(w)
      if r is None:
        b.add(w)
      else:
        b.update(r if isinstance(r, tuple) else (r,))
    return Term([
        Atom(a.name, a.conj, [sub_group(g, m) for g in a.legs])
        for a in self.atoms
    ], [sub_group(g, m) for g in self.out], b)

  def wires(self):
    s = set(self.bound)
    for a in self.atoms:
      for g in a.legs:
        s.update(g)
    for g in self.out:
      s.update(g)
    return s

  def fresh(self):
    return self.subst({w: wire(S().dims[w]) for w in self.wires()})

  def rebind(self):
    """Wires no longer in the output are summed."""
    o = {w for g in self.out for w in g}
    self.bound = self.wires() - o
    return self

  def __repr__(self):
    return f"{self.atoms}->{self.out}"


def refine_pair(t, g, h):
  """Make groups g and h of term t have the same granularity; returns the
  refined term and the two groups."""
  if len(g) == len(h):
    for a, b in zip(g, h):
      if not dim_eq(S().dims[a], S().dims[b]):
        raise Unsupported("contracted legs split differently")
    return t, g, h
  i = j = 0
  m = {}
  g, h = list(g), list(h)
  while i < len(g) and j < len(h):
    a, b = S().dims[g[i]], S().dims[h[j]]
    if dim_eq(a, b):
      i += 1
      j += 1
      continue
    done = False
    for x, xi, y, yi in ((g, i, h, j), (h, j, g, i)):
      # x[xi] equals the product of several consecutive y
      prod = S().dims[y[yi]]
      for k in range(yi + 1, len(y)):
        prod = prod * S().dims[y[k]]
        if dim_eq(prod, S().dims[x[xi]]):
          parts = tuple(wire(S().dims[w]) for w in y[yi:k + 1])
          m[x[xi]] = parts
          x[xi:xi + 1] = list(parts)
          done = True
          break
      if done:
        break
    if not done:
      raise Unsupported("incompatible index splittings")
  if i != len(g) or j != len(h):
    raise Unsupported("incompatible index splittings")
  t = t.subst(m)
  return t, tuple(g), tuple(h)


def unify(t, pairs):
  """Identify pairs of groups (given as functions of the term)."""
  for fg, fh in pairs:
    g, h = fg(t), fh(t)
    t, g, h = refine_pair(t, g, h)
    m = {}
    for a, b in zip(g, h):
      a, b = m.get(a, a), m.get(b, b)
      if a != b:
        m = {k: (a if v == b else v) for k, v in m.items()}
        m[b] = a
    t = t.subst(m)
  return t


def product(ts):
  """Outer product: concatenated outputs (copies are made disjoint)."""
  atoms, out, bound = [], [], set()
  for t in ts:
    t = t.fresh()
    atoms += t.atoms
    out += t.out
    bound |= t.bound
  return Term(atoms, out, bound)


class Rule:
  """pattern Term -> replacement Term with the same number of outputs."""

  def __init__(self, pattern, repl, conj=True):
    self.pattern, self.repl = pattern, repl


def add_rule(pattern, repl):
  S().rules.append((pattern, repl))
  flip = lambda t: Term([Atom(a.name, not a.conj, a.legs) for a in t.atoms],
                        t.out, t.bound)
  S().rules.append((flip(pattern), flip(repl)))


def match_atoms(pat, host, fixed_out=None):
  """Yields (list of host atom positions, {pattern wire: host group})."""
  n = len(pat.atoms)

  def rec(i, used, m):
    if i == n:
      yield list(used), dict(m)
      return
    p = pat.atoms[i]
    for j, a in enumerate(host.atoms):
      if j in used or a.conj != p.conj or len(a.legs) != len(p.legs):
        continue
      if not name_eq(a.name, p.name):
        continue
      m2 = dict(m)
      ok = True
      for pg, hg in zip(p.legs, a.legs):
        if len(pg) == 1:
          w = pg[0]
          if w in m2:
            if m2[w] != hg:
              ok = False
              break
          else:
            m2[w] = hg
        else:
          if len(pg) != len(hg):
            ok = False
            break
          for w, v in zip(pg, hg):
            if m2.setdefault(w, (v,)) != (v,):
              ok = False
              break
          if not ok:
            break
      if ok:
        yield from rec(i + 1, used + [j], m2)

  yield from rec(0, [], {})


def rewrite_once(t):
  for pat, repl in S().rules:
    if len(pat.atoms) > len(t.atoms):
      continue
    for pos, m in match_atoms(pat, t):
      rest = [a for j, a in enumerate(t.atoms) if j not in pos]
      outside = {w for a in rest for g in a.legs for w in g}
      outside |= {w for g in t.out for w in g}
      inner = pat.bound
      hostinner = [v for w in inner for v in m[w]]
      if any(v in outside for v in hostinner):
        continue
      # distinct pattern wires must be distinct host wires when internal
      if len(set(hostinner)) != len(hostinner):
        continue
      ext = [tuple(v for w in g for v in m[w]) for g in pat.out]
      if any(v in hostinner for g in ext for v in g):
        continue
      r = repl.fresh()
      k = len(t.out)
      new = Term(rest + r.atoms, t.out + r.out + ext,
                 (t.bound - set(hostinner)) | r.bound)
      nr = len(r.out)
      for q in range(nr):
        new = unify(new, [(lambda x, q=q: x.out[k + nr + q],
                           lambda x, q=q: x.out[k + q])])
      o = {w for g in new.out[:k] for w in g}
      b = set(new.bound)
      for g in new.out[k:]:
        b.update(w for w in g if w not in o)
      return Term(new.atoms, new.out[:k], b - o)
  return None


def normalize(t):
  for _ in range(200):
    r = rewrite_once(t)
    if r is None:
      return t
    t = r
  raise Unsupported("rewriting does not terminate")


def coarsen(t):
  """Merge wires that only ever occur as the adjacent pair (p, q)."""
  while True:
    nxt, prv, bad = {}, {}, set()
    for g in [g for a in t.atoms for g in a.legs] + t.out:
      for i, w in enumerate(g):
        x = g[i + 1] if i + 1 < len(g) else None
        y = g[i - 1] if i else None
        if nxt.setdefault(w, x) != x:
          bad.add(w)
        if prv.setdefault(w, y) != y:
          bad.add((w, "p"))
    for p, q in nxt.items():
      if q is not None and p not in bad and (q, "p") not in bad and p != q:
        r = wire(S().dims[p] * S().dims[q])
        f = lambda g: tuple(r if w == p else w for w in g if w != q)
        t = Term([Atom(a.name, a.conj, [f(g) for g in a.legs])
                  for a in t.atoms], [f(g) for g in t.out], set())
        break
    else:
      return t


def iso(a, b):
  """Equality of two normalised terms up to renaming of wires."""
  if len(a.atoms) != len(b.atoms) or len(a.out) != len(b.out):
    return False
  # harmonise output granularity
  try:
    both = Term(a.atoms + b.fresh().atoms, [], set())
    bf = b.fresh()
    k = len(a.out)
    t = Term(a.atoms + bf.atoms, a.out + bf.out, a.bound | bf.bound)
    na = len(a.atoms)
    for q in range(k):
      t, _, _ = refine_pair(t, t.out[q], t.out[k + q])
    wa = {w for x in t.atoms[:na] for g in x.legs for w in g} | {
        w for g in t.out[:k] for w in g}
    A = coarsen(Term(t.atoms[:na], t.out[:k], set()))
    B = coarsen(Term(t.atoms[na:], t.out[k:], set()))
    loops_a = [S().dims[w] for w in a.bound
               if not any(w in g for x in a.atoms for g in x.legs)]
    loops_b = [S().dims[w] for w in b.bound
               if not any(w in g for x in b.atoms for g in x.legs)]
  except Unsupported:
    return False
  pa = pb = 1
  for d in loops_a:
    pa = d * pa
  for d in loops_b:
    pb = d * pb
  if not dim_eq(pa, pb):
    return False
  for pos, m in match_ext(A, B):
    return True
  return False


def match_ext(A, B):
  """Bijective matches of all atoms of A onto B respecting outputs."""

  def bind(m, inv, g, h):
    if len(g) != len(h):
      return False
    for w, v in zip(g, h):
      if m.get(w, v) != v or inv.get(v, w) != w:
        return False
      m[w] = v
      inv[v] = w
    return True

  m, inv = {}, {}
  for g, h in zip(A.out, B.out):
    if not bind(m, inv, g, h):
      return

  def rec(i, used, m, inv):
    if i == len(A.atoms):
      yield used, m
      return
    p = A.atoms[i]
    for j, a in enumerate(B.atoms):
      if j in used or a.conj != p.conj or len(a.legs) != len(p.legs):
        continue
      if not name_eq(a.name, p.name):
        continue
      m2, i2 = dict(m), dict(inv)
      if all(bind(m2, i2, g, h) for g, h in zip(p.legs, a.legs)):
        yield from rec(i + 1, used + [j], m2, i2)

  yield from rec(0, [], m, inv)


class T:
  """A tensor of the free algebra (immutable value, mutable identity)."""
  pytype = np.ndarray

  def __init__(self, terms, label=None):
    self.terms = terms          # list of (coefficient, Term)
    self.label = label
    self.written = False

  # construction
  @staticmethod
  def atom(name, dims, conj=False):
    ws = [wire(d) for d in dims]
    return T([(1, Term([Atom(name, conj, [(w,) for w in ws])],
                       [(w,) for w in ws], set()))], name)

  @staticmethod
  def eye(d):
    w = wire(d)
    return T([(1, Term([], [(w,), (w,)], set()))])

  @property
  def shape(self):
    return tuple(dim_of(g) for g in self.terms[0][1].out)

  @property
  def ndim(self):
    return len(self.terms[0][1].out)

  @property
  def dtype(self):
    return np.dtype("complex128")

  @property
  def T(self):
    return self.transpose(list(range(self.ndim))[::-1])

  def __len__(self):
    return self.shape[0]

  def map(self, f):
    return T([(c, f(t)) for c, t in self.terms])

  def transpose(self, perm):
    perm = [int(p) for p in perm]
    n = self.ndim
    perm = [p + n if p < 0 else p for p in perm]
    if sorted(perm) != list(range(n)):
      raise ValueError("axes don't match array")
    return self.map(lambda t: Term(t.atoms, [t.out[p] for p in perm], t.bound))

  def conj(self):
    return T([(cconj(c),
               Term([Atom(a.name, not a.conj, a.legs) for a in t.atoms], t.out,
                    t.bound)) for c, t in self.terms])

  def _scale(self, s):
    if isinstance(s, T):
      return mul_scalar(self, s)
    return T([(cmul(c, s), t) for c, t in self.terms])

  def __mul__(self, s):
    if isinstance(s, T) and s.ndim and self.ndim:
      raise Unsupported("elementwise product")
    if isinstance(s, T) and not self.ndim:
      return mul_scalar(s, self)
    return self._scale(s)

  __rmul__ = __mul__

  def __truediv__(self, s):
    if isinstance(s, T):
      if s.ndim:
        raise Unsupported("elementwise division")
      return mul_scalar(self, inverse(s))
    return self._scale(cinv(s))

  def __pow__(self, k):
    if self.ndim or not isinstance(k, int) or k < 1:
      raise Unsupported("power of a tensor")
    r = self
    for _ in range(k - 1):
      r = mul_scalar(r, self)
    return r

  def __neg__(self):
    return self._scale(-1)

  def __add__(self, o):
    if not isinstance(o, T):
      raise Unsupported("sum of a tensor and a number")
    if self.ndim != o.ndim:
      a, b = (self, o) if self.ndim > o.ndim else (o, self)
      k = a.ndim - b.ndim
      if not all(not g for _, t in a.terms for g in t.out[:k]):
        raise Unsupported("broadcasting sum")
      b = T([(cf, Term(t.atoms, [()] * k + list(t.out), t.bound))
             for cf, t in b.terms])
      return a + b
    for a, b in zip(self.shape, o.shape):
      if not dim_eq(a, b):
        raise ValueError("operands could not be broadcast together")
    return T(self.terms + o.terms)

  def __sub__(self, o):
    return self + (-o)

  def __matmul__(self, o):
    return tensordot(self, o, [[self.ndim - 1], [0]])

  def reshape(self, *shape):
    if len(shape) == 1 and not isnum(shape[0]):
      shape = tuple(shape[0])
    return reshape(self, shape)

  def getitem(self, i):
    raise Unsupported("entry access")

  def item(self):
    if self.ndim:
      raise Unsupported("item of a tensor")
    return self

  def __repr__(self):
    return f"<T {self.terms}>"

  __hash__ = object.__hash__

  def __eq__(self, o):
    return self is o


def cconj(c):
  return c.conjugate() if isinstance(c, complex) else c


def cmul(a, b):
  if isinstance(a, int) and a == 1:
    return b
  return a * b


def cinv(s):
  if isinstance(s, SymNum):
    return 1 / s
  return 1 / s


def mul_scalar(a, s):
  """Tensor times rank-0 tensor."""
  return T([(cmul(c, d), Term(p.atoms, p.out, p.bound))
            for c, t in a.terms for d, u in s.terms
            for p in [product([t, u])]])


_scalar_names = {}


def inverse(s):
  n = opaque_name("inv", s)
  inv = T.atom(n, [])
  # s * inv(s) = 1 when s is a single scalar atom
  if len(s.terms) == 1 and len(s.terms[0][1].atoms) == 1 and not isinstance(
      s.terms[0][0], Sym) and s.terms[0][0] == 1:
    a = s.terms[0][1].atoms[0]
    add_rule(Term([Atom(a.name, a.conj, []), Atom(n, False, [])], [], set()),
             Term([], [], set()))
  return inv


def opaque_name(op, *args):
  """Same operation on equal arguments gives the same atom."""
  tab = getattr(S(), "opaque", None)
  if tab is None:
    tab = S().opaque = []
  for nm, o, xs in tab:
    if o == op and len(xs) == len(args) and all(
        same_value(x, y) for x, y in zip(xs, args)):
      return nm
  nm = f"{op}#{len(tab)}"
  tab.append((nm, op, args))
  return nm


def same_value(x, y):
  if isinstance(x, T) and isinstance(y, T):
    return x is y or equal(x, y)
  if isinstance(x, Sym) or isinstance(y, Sym):
    return CTX.feasible(z3.Not(eq(x, y))) == z3.unsat
  return x == y


def tensordot(a, b, axes):
  if isinstance(axes, int):
    axes = [list(range(a.ndim - axes, a.ndim)), list(range(axes))]
  ax1, ax2 = axes
  if isinstance(ax1, int):
    ax1 = [ax1]
  if isinstance(ax2, int):
    ax2 = [ax2]
  ax1 = [int(x) + (a.ndim if int(x) < 0 else 0) for x in ax1]
  ax2 = [int(x) + (b.ndim if int(x) < 0 else 0) for x in ax2]
  if len(ax1) != len(ax2):
    raise ValueError("shape-mismatch for sum")
  if len(set(ax1)) != len(ax1) or len(set(ax2)) != len(ax2):
    raise ValueError("repeated axis in tensordot")
  for x, n in [(x, a.ndim) for x in ax1] + [(x, b.ndim) for x in ax2]:
    if not 0 <= x < n:
      raise IndexError("tuple index out of range")
  for x, y in zip(ax1, ax2):
    if not dim_eq(a.shape[x], b.shape[y]):
      raise ValueError("shape-mismatch for sum")
  n = a.ndim

  def one(t, u):
    p = product([t, u])
    p = unify(p, [(lambda q, x=x: q.out[x], lambda q, y=y: q.out[n + y])
                  for x, y in zip(ax1, ax2)])
    out = [g for i, g in enumerate(p.out[:n]) if i not in ax1] + [
        g for i, g in enumerate(p.out[n:]) if i not in ax2
    ]
    return Term(p.atoms, out, set()).rebind_with(p)

  return T([(cmul(c, d), one(t, u)) for c, t in a.terms for d, u in b.terms])


def _rebind_with(self, p):
  o = {w for g in self.out for w in g}
  self.bound = (self.wires() | p.wires()) - o
  return self


Term.rebind_with = _rebind_with


def trace(a, ax1, ax2):
  if not dim_eq(a.shape[ax1], a.shape[ax2]):
    raise Unsupported("trace of unequal dimensions")

  def one(t):
    p = unify(t, [(lambda q: q.out[ax1], lambda q: q.out[ax2])])
    out = [g for i, g in enumerate(p.out) if i not in (ax1, ax2)]
    return Term(p.atoms, out, set()).rebind_with(p)

  return a.map(one)


def einsum(labels_in, labels_out, tensors):
  """Reference semantics: labels per tensor, output labels."""

  def one(ts):
    p = product(ts)
    flat = [l for ls in labels_in for l in ls]
    first = {}
    pairs = []
    for i, l in enumerate(flat):
      if l in first:
        pairs.append((lambda q, i=first[l]: q.out[i], lambda q, i=i: q.out[i]))
      else:
        first[l] = i
    p = unify(p, pairs)
    out = [p.out[first[l]] for l in labels_out]
    return Term(p.atoms, out, set()).rebind_with(p)

  terms = []
  for combo in itertools.product(*[t.terms for t in tensors]):
    c = 1
    for x, _ in combo:
      c = cmul(c, x)
    terms.append((c, one([t for _, t in combo])))
  return T(terms)


def reshape(a, shape):
  shape = [s if isinstance(s, Sym) else int(s) for s in shape]
  if any(isinstance(s, int) and s == -1 for s in shape):
    pos = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1]
    if len(pos) != 1:
      raise ValueError("can only specify one unknown dimension")
    i = pos[0]
    # -1 absorbs whatever the others leave: match from both ends
    return a.map(lambda t: _reshape_term(t, shape, i))
  return a.map(lambda t: _reshape_term(t, shape, None))


def _reshape_term(t, shape, unknown):
  ws = [w for g in t.out for w in g if not (isinstance(S().dims[w], int) and
                                            S().dims[w] == 1)]
  ones = [w for g in t.out for w in g if w not in ws]
  if unknown is not None:
    t, head, k1 = _consume(t, ws, shape[:unknown])
    ws2 = [w for g in t.out for w in g if not (isinstance(S().dims[w], int) and
                                               S().dims[w] == 1)]
    rest = ws2[k1:]
    t, tail_rev, k2 = _consume(t, rest[::-1], shape[unknown + 1:][::-1])
    ws3 = [w for g in t.out for w in g if not (isinstance(S().dims[w], int) and
                                               S().dims[w] == 1)]
    if k1 + k2 > len(ws3):
      raise ValueError("cannot reshape array")
    mid = ws3[k1:len(ws3) - k2]
    out = head + [tuple(mid)] + [g[::-1] for g in tail_rev][::-1]
    return Term(t.atoms, out, t.bound)
  t, out, k = _consume(t, ws, shape)
  ws2 = [w for g in t.out for w in g if not (isinstance(S().dims[w], int) and
                                             S().dims[w] == 1)]
  if k != len(ws2):
    raise ValueError("cannot reshape array")
  return Term(t.atoms, out, t.bound)


def _consume(t, ws, shape):
  """Group the wires ws (in order) into the requested dimensions."""
  ws = list(ws)
  out, i = [], 0
  for s in shape:
    if isinstance(s, int) and s == 1:
      out.append(())
      continue
    g = []
    prod = 1
    while not dim_eq(prod, s):
      if i >= len(ws):
        raise ValueError("cannot reshape array")
      d = S().dims[ws[i]]
      nxt = d * prod if not (isinstance(prod, int) and prod == 1) else d
      # does this wire have to be split?
      q = splitting(s, prod, d)
      if q is not None:
        a, b = wire(q[0]), wire(q[1])
        t = t.subst({ws[i]: (a, b)})
        ws[i:i + 1] = [a, b]
        continue
      g.append(ws[i])
      prod = nxt
      i += 1
      if len(g) > 12:
        raise Unsupported("reshape does not match the index structure")
    out.append(tuple(g))
  return t, out, i


def monomial(d):
  """dimension -> (int factor, sorted list of symbol names) or None."""
  if isinstance(d, int):
    return d, []
  t = z3.simplify(z(d))
  fac, syms = 1, []
  todo = [t]
  while todo:
    x = todo.pop()
    if z3.is_mul(x):
      todo += x.children()
    elif z3.is_int_value(x):
      fac *= x.as_long()
    elif z3.is_const(x):
      syms.append(x)
    else:
      return None
  return fac, sorted(syms, key=str)


def splitting(s, prod, d):
  """(a, b) with a*b == d when a wire of dimension d has to be split so that
  prod * a == s; None when the wire is taken whole."""
  ms, mp, md = monomial(s), monomial(prod), monomial(d)
  if ms is None or mp is None or md is None:
    return None
  fs, ss = ms[0], list(ms[1])
  fp, sp = mp
  for x in sp:
    for y in ss:
      if x.eq(y):
        ss.remove(y)
        break
    else:
      return None
  if fp == 0 or fs % fp:
    return None
  fs //= fp
  fd, sd = md[0], list(md[1])
  # s/prod must be a proper divisor of d
  for x in ss:
    for y in sd:
      if x.eq(y):
        sd.remove(y)
        break
    else:
      return None
  if fd % fs:
    return None
  fd //= fs
  if fd == 1 and not sd:
    return None
  a = wrap(simp(z3.Product([z3.IntVal(fs)] + ss))) if ss else fs
  b = wrap(simp(z3.Product([z3.IntVal(fd)] + sd))) if sd else fd
  if isinstance(a, int) and a == 1:
    return None
  return a, b


def collect(a):
  """Normalised list of (coefficient, Term), equal terms merged."""
  out = []
  for c, t in a.terms:
    t = normalize(t)
    used = {w for x in t.atoms for g in x.legs for w in g} | {
        w for g in t.out for w in g}
    loops = sorted(t.bound - used)
    if loops and not (isinstance(c, int) and c == 0):
      # a closed loop is its dimension
      for w in loops:
        d = S().dims[w]
        c = d if isinstance(c, int) and c == 1 else c * d
      t = Term(t.atoms, t.out, t.bound & used)
    for i, (d, u) in enumerate(out):
      if iso(t, u):
        out[i] = (c + d, u)
        break
    else:
      out.append((c, t))
  return [(c, t) for c, t in out if not is_zero(c)]


def is_zero(c):
  if isinstance(c, Sym):
    return CTX.feasible(z(c) != 0) == z3.unsat
  return c == 0


def equal(a, b):
  """Equality for all entries and dimensions (complete up to the rules)."""
  if a.ndim != b.ndim:
    return False
  x, y = collect(a), collect(b)
  if len(x) != len(y):
    return False
  y = list(y)
  for c, t in x:
    for i, (d, u) in enumerate(y):
      if iso(t, u) and not isinstance(c - d, Sym) and abs(c - d) < 1e-12 or (
          isinstance(c - d, Sym) and iso(t, u) and is_zero(c - d)):
        y.pop(i)
        break
    else:
      return False
  return True


def isometry(name, n_in, dims_in, dim_out, last=True):
  """Rule: the atom `name` with its (first n_in | last n_in) legs contracted
  with its conjugate is the identity on the remaining leg."""
  ws = [wire(d) for d in dims_in]
  b, c = wire(dim_out), wire(dim_out)
  la = [(w,) for w in ws] + [(b,)]
  lb = [(w,) for w in ws] + [(c,)]
  if not last:
    la = [(b,)] + [(w,) for w in ws]
    lb = [(c,)] + [(w,) for w in ws]
  pat = Term([Atom(name, False, la), Atom(name, True, lb)], [(b,), (c,)],
             set(ws))
  x = wire(dim_out)
  S().rules.append((pat, Term([], [(x,), (x,)], set())))


class NFBackend(AbstractBackend):
  """The documented contract of a dense backend, on the free algebra."""

  def __init__(self):
    super().__init__()
    self.name = "free"

  def tensordot(self, a, b, axes):
    return tensordot(a, b, axes)

  def reshape(self, tensor, shape):
    return reshape(tensor, list(shape))

  def transpose(self, tensor, perm=None):
    if perm is None:
      perm = list(range(tensor.ndim))[::-1]
    return tensor.transpose(list(perm))

  def shape_concat(self, values, axis):
    return sum([list(v) for v in values], [])

  def slice(self, tensor, start_indices, slice_sizes):
    for s, n, d in zip(start_indices, slice_sizes, tensor.shape):
      if not (isinstance(s, int) and s == 0 and dim_eq(n, d)):
        raise Unsupported("slice of a symbolic tensor")
    return tensor

  def shape_tensor(self, tensor):
    return tensor.shape

  def shape_tuple(self, tensor):
    return tensor.shape

  def sparse_shape(self, tensor):
    return tensor.shape

  def shape_prod(self, values):
    r = 1
    for v in values:
      r = v * r
    return r

  def sqrt(self, tensor):
    return opaque("sqrt", tensor)

  def convert_to_tensor(self, tensor):
    if isinstance(tensor, T):
      return tensor
    if isinstance(tensor, (int, float, complex, np.number)):
      return T([(tensor, Term([], [], set()))])
    raise Unsupported("conversion of " + type(tensor).__name__)

  def outer_product(self, a, b):
    return tensordot(a, b, [[], []])

  def einsum(self, expression, *tensors, optimize=True):
    lhs, rhs = expression.replace(" ", "").split("->")
    return einsum([list(x) for x in lhs.split(",")], list(rhs), tensors)

  def zeros(self, shape, dtype=None):
    shape = [shape] if not isinstance(shape, (tuple, list)) else shape
    return T([(0, Term([], [(wire(d),) for d in shape], set()))])

  def ones(self, shape, dtype=None):
    shape = [shape] if not isinstance(shape, (tuple, list)) else shape
    return T([(1, Term([], [(wire(d),) for d in shape], set()))])

  def norm(self, tensor):
    if not collect(tensor):
      return self.zeros(())
    return T.atom(opaque_name("norm", tensor), [])

  def conj(self, tensor):
    return tensor.conj()

  def trace(self, tensor, offset=0, axis1=-2, axis2=-1):
    if offset != 0:
      raise Unsupported("trace with an offset")
    n = tensor.ndim
    return trace(tensor, axis1 % n, axis2 % n)

  def sum(self, tensor, axis=None, keepdims=False):
    n = tensor.ndim
    axis = list(range(n)) if axis is None else [
        int(a) % n for a in (axis if isinstance(axis, (tuple, list)) else [axis])
    ]
    if keepdims or len(set(axis)) != len(axis):
      raise Unsupported("sum keepdims")
    ls = [f"i{k}" for k in range(n)]
    return einsum([ls], [l for k, l in enumerate(ls) if k not in axis],
                  [tensor])

  def diagonal(self, tensor, offset=0, axis1=-2, axis2=-1):
    n = tensor.ndim
    a, b = axis1 % n, axis2 % n
    if offset != 0 or not dim_eq(tensor.shape[a], tensor.shape[b]):
      raise Unsupported("diagonal")
    ls = [f"i{k}" for k in range(n)]
    ls[b] = ls[a]
    return einsum([ls], [l for k, l in enumerate(ls) if k not in (a, b)] +
                  [ls[a]], [tensor])

  def matmul(self, tensor1, tensor2):
    n = tensor1.ndim
    if n < 2 or tensor2.ndim != n:
      raise Unsupported("matmul of these ranks")
    b = [f"b{k}" for k in range(n - 2)]
    return einsum([b + ["i", "j"], b + ["j", "k"]], b + ["i", "k"],
                  [tensor1, tensor2])

  def eye(self, N, dtype=None, M=None):
    if M is not None and not dim_eq(M, N):
      raise Unsupported("rectangular identity")
    return T.eye(N)

  def serialize_tensor(self, tensor):
    """Assumed contract: deserialising the text gives an equal tensor."""
    store = S().__dict__.setdefault("texts", [])
    store.append(tensor)
    return f"tensor:{len(store) - 1}"

  def deserialize_tensor(self, s):
    return T(list(S().texts[int(s.split(":")[1])].terms))

  def diagflat(self, tensor, k=0):
    if k != 0 or tensor.ndim != 1:
      raise Unsupported("diagflat")
    return tensor.map(lambda t: Term(t.atoms, [t.out[0], t.out[0]], t.bound))

  def addition(self, a, b):
    return a + b

  def subtraction(self, a, b):
    return a - b

  def multiply(self, a, b):
    return a * b

  def divide(self, a, b):
    return a / b

  def broadcast_right_multiplication(self, a, b):
    # a * b with b of rank 1 along the last axis of a
    return einsum([["i%d" % i for i in range(a.ndim)], ["i%d" % (a.ndim - 1)]],
                  ["i%d" % i for i in range(a.ndim)], [a, b])

  def broadcast_left_multiplication(self, a, b):
    return einsum([["i0"], ["i%d" % i for i in range(b.ndim)]],
                  ["i%d" % i for i in range(b.ndim)], [a, b])

  def qr(self, tensor, pivot_axis=-1, non_negative_diagonal=False):
    return factor2("qr", tensor, pivot_axis, non_negative_diagonal)

  def rq(self, tensor, pivot_axis=-1, non_negative_diagonal=False):
    return factor2("rq", tensor, pivot_axis, non_negative_diagonal)

  def svd(self, tensor, pivot_axis=-1, max_singular_values=None,
          max_truncation_error=None, relative=False):
    return svd(tensor, pivot_axis, max_singular_values, max_truncation_error,
               relative)

  def jit(self, fun, *args, **kwargs):
    return fun

  def item(self, tensor):
    return tensor

  def abs(self, tensor):
    return opaque("abs", tensor)

  def dtype(self, tensor):
    return tensor.dtype


def opaque(op, tensor):
  nm = opaque_name(op, tensor)
  done = S().__dict__.setdefault("opaque_done", set())
  if op == "sqrt" and nm not in done and tensor.ndim == 1:
    done.add(nm)
    t = single_term(tensor)
    if t is not None:
      # elementwise sqrt(s)*sqrt(s) = s for the non-negative values it is
      # applied to
      w = wire(tensor.shape[0])
      S().rules.append((Term([Atom(nm, False, [(w,)]), Atom(nm, False, [(w,)])],
                             [(w,)], set()), t))
      v = wire(tensor.shape[0])
      S().rules.append((Term([Atom(nm, True, [(v,)])], [(v,)], set()),
                        Term([Atom(nm, False, [(v,)])], [(v,)], set())))
  return T.atom(nm, list(tensor.shape))


def new_dim(name):
  d = CTX.int(name)
  CTX.assume(d >= 1)
  return wrap(d)


def single_term(a):
  x = collect(a)
  if len(x) == 1 and not isinstance(x[0][0], Sym) and x[0][0] == 1:
    return x[0][1]
  return None


def definition(tensor):
  """The tensor as one replacement term."""
  t = single_term(tensor)
  if t is None:
    raise Unsupported("decomposition of a sum")
  return t


def factor2(kind, tensor, pivot, nonneg):
  n = tensor.ndim
  pivot = pivot % n if pivot < 0 else pivot
  t = definition(tensor)
  nm = opaque_name(kind, tensor, pivot, bool(nonneg))
  tab = S().__dict__.setdefault("facdim", {})
  if nm not in tab:
    tab[nm] = new_dim("bond")
  d = tab[nm]
  left, right = list(tensor.shape[:pivot]), list(tensor.shape[pivot:])
  q = T.atom(nm + ".L", left + [d])
  r = T.atom(nm + ".R", [d] + right)
  lw, rw = [wire(x) for x in left], [wire(x) for x in right]
  b = wire(d)
  g = lambda ws: [(w,) for w in ws]
  S().rules.append((Term([
      Atom(nm + ".L", False, g(lw) + [(b,)]),
      Atom(nm + ".R", False, [(b,)] + g(rw))
  ], g(lw) + g(rw), {b}), t))
  f = conj_term(t)
  S().rules.append((Term([
      Atom(nm + ".L", True, g(lw) + [(b,)]),
      Atom(nm + ".R", True, [(b,)] + g(rw))
  ], g(lw) + g(rw), {b}), f))
  if kind == "qr":
    isometry(nm + ".L", pivot, left, d, last=True)
  else:
    isometry(nm + ".R", n - pivot, right, d, last=False)
  return q, r


def conj_term(t):
  return Term([Atom(a.name, not a.conj, a.legs) for a in t.atoms], t.out,
              t.bound)


def svd(tensor, pivot, maxs, maxerr, relative=False):
  n = tensor.ndim
  pivot = pivot % n if pivot < 0 else pivot
  t = definition(tensor)
  nm = opaque_name("svd", tensor, pivot, maxs, maxerr,
                   bool(relative) if maxerr is not None else False)
  tab = S().__dict__.setdefault("facdim", {})
  if nm not in tab:
    tab[nm] = new_dim("chi")
  d = tab[nm]
  left, right = list(tensor.shape[:pivot]), list(tensor.shape[pivot:])
  u = T.atom(nm + ".U", left + [d])
  s = T.atom(nm + ".S", [d])
  v = T.atom(nm + ".V", [d] + right)
  lw, rw = [wire(x) for x in left], [wire(x) for x in right]
  b = wire(d)
  g = lambda ws: [(w,) for w in ws]
  trunc = maxs is not None or maxerr is not None
  rep = t
  if trunc:
    # the best approximation kept by the truncation: one opaque tensor
    a = T.atom(nm + ".kept", left + right)
    rep = a.terms[0][1]
  for cj in (False, True):
    S().rules.append((Term([
        Atom(nm + ".U", cj, g(lw) + [(b,)]),
        Atom(nm + ".S", False, [(b,)]),
        Atom(nm + ".V", cj, [(b,)] + g(rw))
    ], g(lw) + g(rw), {b}), conj_term(rep) if cj else rep))
  isometry(nm + ".U", pivot, left, d, last=True)
  isometry(nm + ".V", n - pivot, right, d, last=False)
  # singular values are real
  w = wire(d)
  S().rules.append((Term([Atom(nm + ".S", True, [(w,)])], [(w,)], set()),
                    Term([Atom(nm + ".S", False, [(w,)])], [(w,)], set())))
  for f in ("sqrt", "abs"):
    pass
  if nm + ".disc" not in tab:
    tab[nm + ".disc"] = new_dim("ndisc")
  return u, s, v, T.atom(nm + ".disc", [tab[nm + ".disc"]])
