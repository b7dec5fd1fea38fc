"""Symbolic sequences, sets, dictionaries and heap objects."""
import types
import z3
from .core import *
from . import core


# always true; a trigger for facts about witnesses of set inequalities
touch = z3.Function("touch", z3.IntSort(), z3.BoolSort())


def rng_index(i, n, what="index"):
  """Python index normalisation; raises IndexError on the failing branch."""
  if isinstance(i, int) and isinstance(n, int):
    j = i + n if i < 0 else i
    if not 0 <= j < n:
      raise IndexError(what + " out of range")
    return j
  ti, tn = z(i), z(n)
  neg = wrap(simp(ti < 0))
  if neg is True or (neg is not False and bool(neg)):
    ti = simp(ti + tn)
  ok = wrap(simp(z3.And(ti >= 0, ti < tn)))
  if not ok:
    raise IndexError(what + " out of range")
  return ti


class SeqBase(Sym):
  """length `n` (python int or SymNum), element closure `get(z3 Int)`."""
  native = list

  @property
  def t(self):
    raise Unsupported("logical term of a sequence")

  def length(self):
    raise NotImplementedError

  def get(self, k):
    raise NotImplementedError

  def clen(self):
    n = self.length()
    return n if isinstance(n, int) else None

  def at(self, i):
    return self.get(simp(z(i)))

  def getitem(self, i):
    if isinstance(i, slice):
      return self.slice(i)
    return self.get(z(rng_index(i, self.length())))

  __getitem__ = getitem

  def slice(self, s):
    if s.step is not None and s.step != 1:
      if s.step == -1 and s.start is None and s.stop is None:
        n = self.length()
        g = self.snap()
        return self._mk(n, lambda k: g.get(simp(z(n) - 1 - k)))
      if self.clen() is not None:
        return self._mk_list([
            self.get(z3.IntVal(k)) for k in range(*s.indices(self.clen()))
        ])
      raise Unsupported("strided slice")
    n = self.length()

    def clip(v, default):
      if v is None:
        return default
      if isinstance(v, int) and isinstance(n, int):
        v = v + n if v < 0 else v
        return max(0, min(v, n))
      tv, tn = z(v), z(n)
      tv = z3.If(tv < 0, tv + tn, tv)
      return wrap(simp(z3.If(tv < 0, 0, z3.If(tv > tn, tn, tv))))

    lo, hi = clip(s.start, 0), clip(s.stop, n)
    if isinstance(lo, int) and isinstance(hi, int):
      m = max(0, hi - lo)
    else:
      m = wrap(simp(z3.If(z(hi) > z(lo), z(hi) - z(lo), 0)))
    g = self.snap()
    return self._mk(m, lambda k: g.get(simp(k + z(lo))))

  def _mk(self, n, get):
    return (SymTuple if self.native is tuple else SymList)(n, get)

  def _mk_list(self, l):
    return tuple(l) if self.native is tuple else list(l)

  def snap(self):
    """An immutable snapshot of the current content."""
    return self

  def contains(self, x):
    g = self.snap()
    return wrap(
        simp(exists(0, self.length(), lambda k: eq(g.get(k), x))))

  def __contains__(self, x):
    return bool(self.contains(x))

  def index(self, x):
    n = self.clen()
    if n is not None:
      for k in range(n):
        if wrap(simp(eq(self.get(z3.IntVal(k)), x))):
          return k
      raise ValueError("value is not in list")
    g = self.snap()
    if not bool(self.contains(x)):
      raise ValueError("value is not in list")
    k = CTX.int("pos")
    CTX.assume(z3.And(k >= 0, k < z(self.length()), eq(g.get(k), x)))
    CTX.assume(forall(0, k, lambda j: z3.Not(eq(g.get(j), x))))
    return wrap(k)

  def count(self, x):
    n = self.clen()
    if n is None:
      raise Unsupported("count on a sequence of unknown length")
    return sum(1 for k in range(n) if wrap(simp(eq(self.get(z3.IntVal(k)), x))))

  def __iter__(self):
    n = self.clen()
    if n is None:
      n = concretize(self.length())
    if n is None:
      raise Unsupported("native iteration over a sequence of unknown length")
    for k in range(n):
      yield self.get(z3.IntVal(k))

  def __len__(self):
    n = self.clen()
    if n is None:
      n = concretize(self.length())
    if n is None:
      raise Unsupported("native len() of a sequence of unknown length")
    return n

  def __bool__(self):
    n = self.length()
    return n > 0 if isinstance(n, int) else bool(n > 0)

  def concat(self, o, native):
    a, b = self.snap(), as_seq(o).snap()
    n, m = a.length(), b.length()
    if isinstance(n, int) and isinstance(m, int):
      return native(
          [a.get(z3.IntVal(k)) for k in range(n)] +
          [b.get(z3.IntVal(k)) for k in range(m)])
    tot = wrap(simp(z(n) + z(m)))
    cls = SymTuple if native is tuple else SymList
    zn = z(n)
    if isinstance(n, int) and n == 0:
      return cls(tot, b.get)
    if isinstance(m, int) and m == 0:
      return cls(tot, a.get)
    return cls(tot, lambda k: ite(k < zn, a.get(k), b.get(simp(k - zn))))

  def __add__(self, o):
    return self.concat(o, self.native)

  def __radd__(self, o):
    return as_seq(o).concat(self, self.native)

  def __eq__(self, o):
    try:
      o = as_seq(o)
    except Unsupported:
      return False
    return wrap(simp(seq_eq(self, o)))

  def __ne__(self, o):
    r = self.__eq__(o)
    return (not r) if isinstance(r, bool) else wrap(z3.Not(r.t))

  __hash__ = None

  def __repr__(self):
    return f"<{type(self).__name__} len {self.length()}>"

  def __format__(self, s):
    return repr(self)


def seq_eq(a, b):
  """Elementwise equality formula of two sequences."""
  n, m = a.length(), b.length()
  if isinstance(n, int) and isinstance(m, int):
    if n != m:
      return z3.BoolVal(False)
    return z3.And([
        eq(a.get(z3.IntVal(k)), b.get(z3.IntVal(k))) for k in range(n)
    ] or [z3.BoolVal(True)])
  return z3.And(
      z(n) == z(m), forall(0, n, lambda k: eq(a.get(k), b.get(k))))


class SymTuple(SeqBase):
  native = tuple

  def __init__(self, n, get):
    self.n, self._get = n, get

  def length(self):
    return self.n

  def get(self, k):
    return self._get(k)


class SymRange(SymTuple):

  def __init__(self, lo, hi):
    self.lo, self.hi = lo, hi
    self.lo = lo
    n = wrap(simp(z3.If(z(hi) > z(lo), z(hi) - z(lo), 0)))
    super().__init__(n, lambda k: wrap(simp(z(lo) + k)))


class SymList(SeqBase):
  """A mutable list with its own storage."""

  def __init__(self, n, get):
    self.n, self._get = n, get
    self.version = 0

  def length(self):
    return self.n

  def get(self, k):
    return self._get(k)

  def snap(self):
    return SymTuple(self.n, self._get)

  def set_content(self, n, get):
    self.version += 1
    self.n, self._get = n, get

  def setitem(self, i, v):
    if isinstance(i, slice):
      if i.start is None and i.stop is None and i.step is None:
        s = as_seq(v).snap()
        self.set_content(s.length(), s.get)
        return
      raise Unsupported("slice assignment")
    k0 = z(rng_index(i, self.length()))
    old = self._get
    self.set_content(self.n, lambda k: ite(simp(k == k0), v, old(k)))

  __setitem__ = setitem

  def append(self, v):
    n, old = self.n, self._get
    zn = z(n)
    self.set_content(
        wrap(simp(zn + 1)), lambda k: ite(simp(k == zn), v, old(k)))

  def extend(self, o):
    s = self.snap().concat(o, list)
    s = as_seq(s)
    self.set_content(s.length(), s.get)

  def __iadd__(self, o):
    self.extend(o)
    return self

  def copy(self):
    return SymList(self.n, self._get)

  def pop(self, i=-1):
    k0 = z(rng_index(i, self.length(), "pop"))
    v = self._get(simp(k0))
    old = self._get
    self.set_content(
        wrap(simp(z(self.n) - 1)), lambda k: ite(
            simp(k < k0), old(k), old(simp(k + 1))))
    return v

  def remove(self, x):
    self.pop(self.index(x))

  def insert(self, i, v):
    s = self.snap()
    r = as_seq(
        s.slice(slice(None, i)).concat([v], list)).concat(
            s.slice(slice(i, None)), list)
    r = as_seq(r)
    self.set_content(r.length(), r.get)

  def reverse(self):
    n, old = self.n, self._get
    self.set_content(n, lambda k: old(simp(z(n) - 1 - k)))


def list_get(l, k):
  """Element of a native list/tuple at a symbolic position (in range)."""
  k = simp(k)
  if z3.is_int_value(k):
    i = k.as_long()
    if 0 <= i < len(l):
      return l[i]
    if len(l) == 0:
      raise Unsupported("element of an empty list")
    return l[0]  # only under a false guard
  if not l:
    raise Unsupported("element of an empty list")
  r = l[-1]
  for i in range(len(l) - 2, -1, -1):
    r = ite(k == i, l[i], r)
  return r


def as_seq(x):
  if isinstance(x, SeqBase):
    return x
  if isinstance(x, (list, tuple, range)):
    l = list(x)
    cls = SymTuple if isinstance(x, tuple) else SymList
    return cls(len(l), lambda k: list_get(l, k))
  if isinstance(x, (ASet, ADict)):
    return as_seq(list(x))
  if isinstance(x, (set, frozenset, dict)):
    return as_seq(list(x))
  if hasattr(x, "__next__") or type(x).__name__ in (
      "dict_keys", "dict_values", "dict_items", "map", "filter", "zip",
      "enumerate", "reversed", "generator"):
    return as_seq(list(x))
  if hasattr(x, "as_seq"):
    return x.as_seq()
  raise Unsupported("sequence view of " + type(x).__name__)


# -- sets and dictionaries ---------------------------------------------------
def is_native_key(x):
  if isinstance(x, tuple):
    return all(is_native_key(y) for y in x)
  if isinstance(x, Sym):
    return False
  return True


class ASet:
  """Set with symbolic elements.  Either explicit (pairwise distinct on this
  path) or given by a membership predicate over z3 terms."""

  ordered = 0
  img = None  # (length, element): the set of the elements of a sequence
  cond = None  # further condition on the elements of img
  less = None  # (n, items): the set is range(n) without the items

  def __init__(self, items=(), pred=None, rewrap=None):
    self.items, self.pred, self.rewrap = [], pred, rewrap
    if pred is None:
      for x in items:
        self.add(x)

  def add(self, x):
    if self.pred is not None:
      p, t = self.pred, z(x)
      self.img = self.less = None
      self.pred = lambda y: z3.Or(y == t, p(y))
      return
    if not self.__contains__(x):
      self.items.append(x)

  def has(self, x):
    """Membership formula."""
    if self.pred is not None:
      return self.pred(z(x))
    return z3.Or([eq(y, x) for y in self.items] or [z3.BoolVal(False)])

  def contains(self, x):
    return wrap(simp(self.has(x)))

  def __contains__(self, x):
    if self.pred is None and not isinstance(x, Sym):
      if any(not isinstance(y, Sym) and y == x and type(y) == type(x)
             for y in self.items):
        return True
    return bool(self.contains(x))

  def __iter__(self):
    if self.pred is not None:
      raise Unsupported("native iteration over a symbolic set")
    items = list(self.items)
    n = len(items)
    if CTX.any_set_order and 2 <= n <= 3 and self.ordered != n and not any(
        isinstance(x, (int, str)) for x in items):
      # CPython fixes no order: every order is explored
      out = []
      while items:
        k = CTX.choose(len(items)) if len(items) > 1 else 0
        out.append(items.pop(k))
      self.items, self.ordered = out, n
      return iter(list(out))
    return iter(items)

  def __len__(self):
    if self.pred is not None:
      raise Unsupported("size of a symbolic set")
    return len(self.items)

  def __bool__(self):
    if self.pred is not None:
      x = CTX.int("w")
      if CTX.pure:
        return bool(wrap(simp(z3.Exists([x], self.pred(x)))))
      y = CTX.int("witness")
      if self.img is not None:
        n, get = self.img
        c = self.cond or (lambda y: z3.BoolVal(True))
        t = z3.And(touch(y), y >= 0, y < z(n), c(get(y)))
        return CTX.decide([("T", t), ("F", forall(
            0, n, lambda k: z3.Not(c(get(k)))))]) == 0
      return CTX.decide([("T", z3.And(touch(y), self.pred(y))), (
          "F", z3.ForAll([x], z3.Not(self.pred(x))))]) == 0
    return bool(self.items)

  def _p(self):
    return self.pred if self.pred is not None else (lambda y: self.has(
        self._wrapper()(y) if False else y))

  def discard(self, x):
    if self.pred is not None:
      p, t = self.pred, z(x)
      self.img = self.less = None
      self.pred = lambda y: z3.And(y != t, p(y))
      return
    self.items = [y for y in self.items if not wrap(simp(eq(y, x)))]

  def remove(self, x):
    if not self.__contains__(x):
      raise KeyError("element not in set")
    self.discard(x)

  def pop(self):
    if not self.items:
      raise KeyError("pop from an empty set")
    # any element may come out: case split
    k = CTX.choose(len(self.items)) if len(self.items) > 1 else 0
    return self.items.pop(k)

  def update(self, *os):
    for o in os:
      for x in o:
        self.add(x)

  def _bin(self, o, keep, pred):
    if not isinstance(o, ASet):
      o = ASet(list(o)) if not isinstance(o, SeqBase) or o.clen(
      ) is not None else ASet(
          pred=lambda y, o=o: exists(0, o.length(), lambda k: z(o.get(k)) == y))
    if self.pred is None and o.pred is None:
      return ASet(keep(self, o))
    return ASet(pred=lambda y: pred(self.has(y), o.has(y)),
                rewrap=self.rewrap or o.rewrap)

  def difference(self, o):
    r = self._bin(o, lambda a, b: [x for x in a.items if x not in b],
                  lambda p, q: z3.And(p, z3.Not(q)))
    if self.img is not None and r.pred is not None:
      o, c = o.copy() if isinstance(o, ASet) else ASet(o), self.cond
      r.img = self.img
      r.cond = lambda y: z3.And(c(y) if c else True, z3.Not(o.has(y)))
      if self.less is not None and o.pred is None:
        r.less = (self.less[0], self.less[1] + list(o.items))
    return r

  __sub__ = difference

  def intersection(self, o):
    return self._bin(o, lambda a, b: [x for x in a.items if x in b],
                     lambda p, q: z3.And(p, q))

  __and__ = intersection

  def union(self, *os):
    r = self
    for o in os:
      r = r._bin(o, lambda a, b: list(a.items) + list(b.items),
                 lambda p, q: z3.Or(p, q))
    return r if os else self.copy()

  __or__ = union

  def __ior__(self, o):
    for x in o:
      self.add(x)
    return self

  def __isub__(self, o):
    for x in list(o):
      self.discard(x)
    return self

  def symmetric_difference(self, o):
    return self._bin(
        o, lambda a, b: [x for x in a.items if x not in b] +
        [x for x in b.items if x not in a], lambda p, q: z3.Xor(p, q))

  __xor__ = symmetric_difference

  def issubset(self, o):
    return all(x in o for x in self)

  __le__ = issubset

  def issuperset(self, o):
    return all(x in self for x in o)

  __ge__ = issuperset

  def __gt__(self, o):
    return self.issuperset(o) and not self.issubset(o)

  def __lt__(self, o):
    return self.issubset(o) and not self.issuperset(o)

  def isdisjoint(self, o):
    return not any(x in self for x in o)

  def copy(self):
    r = ASet(pred=self.pred, rewrap=self.rewrap)
    r.items, r.img, r.cond = list(self.items), self.img, self.cond
    r.less = self.less
    return r

  def __eq__(self, o):
    if isinstance(o, (set, frozenset)):
      o = ASet(list(o))
    if not isinstance(o, ASet):
      return False
    if self.pred is None and o.pred is None:
      f = z3.And([o.has(x) for x in self.items] +
                 [self.has(x) for x in o.items] or [z3.BoolVal(True)])
      return wrap(simp(f))
    x = CTX.int("s")
    same = z3.ForAll([x], self.has(x) == o.has(x))
    for a, b in ((self, o), (o, self)):
      if a.img is not None and a.cond is None and not CTX.pure:
        # redundant consequence with a usable trigger
        same = z3.And(same, forall(0, a.img[0], lambda k: b.has(a.img[1](k))))
    if CTX.pure:
      return wrap(same)
    w = CTX.int("witness")
    return CTX.decide([("T", same), ("F", z3.And(
        touch(w), z3.Xor(self.has(w), o.has(w))))]) == 0

  def __ne__(self, o):
    r = self.__eq__(o)
    return (not r) if isinstance(r, bool) else wrap(z3.Not(r.t))

  def __hash__(self):
    raise Unsupported("hash of a set")

  def __repr__(self):
    return f"<set {self.items if self.pred is None else '?'}>"


class ADict:
  """Association list with symbolic keys; native keys use a dict."""

  def __init__(self, pairs=()):
    self.pairs = []
    self.fast = {}
    self.symkeys = 0
    for k, v in pairs:
      self[k] = v

  def _find(self, key):
    if not isinstance(key, Sym) and is_native_key(key):
      if key in self.fast:
        return self.fast[key]
      if not self.symkeys:
        return -1
    for i, (k, _) in enumerate(self.pairs):
      if k is key or wrap(simp(eq(k, key))):
        return i
    return -1

  def _reindex(self):
    self.fast = {
        k: i for i, (k, _) in enumerate(self.pairs)
        if is_native_key(k)
    }
    self.symkeys = len(self.pairs) - len(self.fast)

  def __setitem__(self, k, v):
    i = self._find(k)
    if i >= 0:
      self.pairs[i] = (self.pairs[i][0], v)
    else:
      if is_native_key(k):
        self.fast[k] = len(self.pairs)
      else:
        self.symkeys += 1
      self.pairs.append((k, v))

  def __getitem__(self, k):
    i = self._find(k)
    if i < 0:
      raise KeyError(repr(k))
    return self.pairs[i][1]

  def __delitem__(self, k):
    i = self._find(k)
    if i < 0:
      raise KeyError(repr(k))
    del self.pairs[i]
    self._reindex()

  def __contains__(self, k):
    return self._find(k) >= 0

  def contains(self, k):
    return self._find(k) >= 0

  def get(self, k, d=None):
    i = self._find(k)
    return d if i < 0 else self.pairs[i][1]

  def setdefault(self, k, d=None):
    i = self._find(k)
    if i < 0:
      self[k] = d
      return d
    return self.pairs[i][1]

  def pop(self, k, *d):
    i = self._find(k)
    if i < 0:
      if d:
        return d[0]
      raise KeyError(repr(k))
    v = self.pairs[i][1]
    del self.pairs[i]
    self._reindex()
    return v

  def keys(self):
    return [k for k, _ in self.pairs]

  def values(self):
    return [v for _, v in self.pairs]

  def items(self):
    return [(k, v) for k, v in self.pairs]

  def __iter__(self):
    return iter(self.keys())

  def __len__(self):
    return len(self.pairs)

  def __bool__(self):
    return bool(self.pairs)

  def update(self, o=(), **kw):
    items = o.items() if hasattr(o, "items") else o
    for k, v in items:
      self[k] = v
    for k, v in kw.items():
      self[k] = v

  def copy(self):
    return ADict(self.pairs)

  def __eq__(self, o):
    if not isinstance(o, (dict, ADict)):
      return False
    if len(self) != len(o):
      return False
    return all(k in self and bool(self[k] == v) for k, v in o.items())

  __hash__ = None

  def __repr__(self):
    return f"<dict {self.pairs}>"


# -- heap --------------------------------------------------------------------
class SymRef(Sym):
  """Reference to a heap object of (at least) class cls; 0 encodes null."""

  def __init__(self, t, cls):
    object.__setattr__(self, "t", t)
    object.__setattr__(self, "cls", cls)

  def rewrap(self, t):
    return SymRef(simp(t), self.cls)

  def __eq__(self, o):
    if isinstance(o, SymRef):
      return wrap(simp(self.t == o.t))
    if o is None:
      return wrap(simp(self.t == NONE))
    return False

  def __ne__(self, o):
    r = self.__eq__(o)
    return (not r) if isinstance(r, bool) else wrap(z3.Not(r.t))

  def __hash__(self):
    raise Unsupported("hash of a symbolic reference")

  def __bool__(self):
    if z3.is_int_value(self.t):
      return self.t.as_long() != NONE
    return CTX.branch(self.t != NONE)

  def _nonnull(self):
    t = simp(self.t)
    if z3.is_int_value(t) and t.as_long() != NONE:
      return
    if bool(wrap(simp(t == NONE))):
      raise AttributeError("'NoneType' object has no such attribute")

  def __getattr__(self, name):
    if name.startswith("__"):
      raise AttributeError(name)
    self._nonnull()
    heap = CTX.heap
    if name in heap.fields:
      return heap.read(name, self.t)
    d = _lookup(self.cls, name)
    if d is None:
      raise AttributeError(f"{self.cls.__name__} has no attribute {name}")
    if isinstance(d, property):
      return d.fget(self)
    if isinstance(d, staticmethod):
      return d.__func__
    if isinstance(d, classmethod):
      return types.MethodType(d.__func__, self.cls)
    if isinstance(d, types.FunctionType):
      return types.MethodType(d, self)
    return d

  def __setattr__(self, name, v):
    self._nonnull()
    d = _lookup(self.cls, name)
    if isinstance(d, property):
      if d.fset is None:
        raise AttributeError("can't set attribute")
      d.fset(self, v)
      return
    CTX.heap.write(name, self.t, v)

  def getitem(self, k):
    return _lookup(self.cls, "__getitem__")(self, k)

  __getitem__ = getitem

  def _op(name):  # pylint: disable=no-self-argument

    def f(self, o):
      d = _lookup(self.cls, name)
      if d is None:
        return NotImplemented
      return d(self, o)

    return f

  __matmul__ = _op("__matmul__")
  __xor__ = _op("__xor__")
  __or__ = _op("__or__")
  __add__ = _op("__add__")
  __sub__ = _op("__sub__")
  __mul__ = _op("__mul__")
  __truediv__ = _op("__truediv__")
  __lt__ = _op("__lt__")

  def __format__(self, s):
    return f"<{self.cls.__name__} {self.t}>"

  __repr__ = __str__ = lambda self: f"<{self.cls.__name__} {self.t}>"


def _lookup(cls, name):
  for c in cls.__mro__:
    if name in c.__dict__:
      return c.__dict__[name]
  return None


class Field:
  """kind: 'int' | 'bool' | 'val' | 'const' | ('ref', cls) | ('list', kind) |
  'obj' (python object shared by all references)."""

  def __init__(self, name, kind, get, length=None, elem=None):
    self.name, self.kind = name, kind
    self.get, self.len, self.elem = get, length, elem

  def copy(self):
    return Field(self.name, self.kind, self.get, self.len, self.elem)


def wrap_kind(kind, t):
  if isinstance(kind, tuple) and kind[0] == "ref":
    return SymRef(simp(t), kind[1])
  if isinstance(kind, tuple) and kind[0] == "wrap":
    return kind[1](simp(t))
  if kind == "val":
    return SymVal(t, "str")
  if kind in ("int", "bool"):
    return wrap(simp(t))
  raise Unsupported("kind " + str(kind))


class HeapList(SymList):
  """View of a list stored in a heap field."""

  def __init__(self, heap, fname, t):
    self.heap, self.fname, self.ref = heap, fname, t
    self.version = 0

  @property
  def n(self):
    return wrap(simp(self.heap.fields[self.fname].len(self.ref)))

  @property
  def _get(self):
    f = self.heap.fields[self.fname]
    elem, ref, k0 = f.elem, self.ref, f.kind[1]
    return lambda k: wrap_kind(k0, elem(ref, k))

  def set_content(self, n, get):
    self.heap.write_list(self.fname, self.ref, n, get)


class Heap:

  def __init__(self):
    self.fields = {}
    self.version = 0
    self.alloc_base = None  # z3 int: next fresh reference
    self.allocated = 0
    self.writes = set()
    self.block = None  # (reference, write log) of an indexed allocation

  def declare(self, name, kind, init=None):
    I = z3.IntSort()
    if isinstance(kind, tuple) and kind[0] == "list":
      es = z3.BoolSort() if kind[1] == "bool" else I
      fl = CTX.func(name + "_len", I, I)
      fe = CTX.func(name, I, I, es)
      n = (lambda r: fl(r))
      if init is not None:
        n = (lambda r: z3.IntVal(init))
      self.fields[name] = Field(name, kind, None, n, lambda r, k: fe(r, k))
    elif kind == "obj":
      self.fields[name] = Field(name, kind, lambda r: init)
    else:
      f = CTX.func(name, I, z3.BoolSort() if kind == "bool" else I)
      self.fields[name] = Field(name, kind, lambda r: f(r))

  def havoc(self, name):
    f = self.fields[name]
    n = f.len
    fixed = None
    if isinstance(f.kind, tuple) and f.kind[0] == "list":
      v = simp(n(z3.Int("probe")))
      if z3.is_int_value(v):
        fixed = v.as_long()
    self.declare(name, f.kind, fixed)
    self.version += 1

  def snapshot(self):
    h = Heap()
    h.fields = {k: v.copy() for k, v in self.fields.items()}
    h.alloc_base, h.allocated = self.alloc_base, self.allocated
    return h

  def read(self, name, t):
    f = self.fields[name]
    if f.kind == "obj":
      return f.get(t)
    if isinstance(f.kind, tuple) and f.kind[0] == "list":
      return HeapList(self, name, t)
    return wrap_kind(f.kind, f.get(t))

  def write(self, name, t, v):
    if name not in self.fields:
      raise Unsupported("write to undeclared field " + name)
    self.version += 1
    self.writes.add(name)
    f = self.fields[name]
    if f.kind == "obj":
      if v is f.get(t) or v is None:
        return
      raise Unsupported("write to shared field " + name)
    if isinstance(f.kind, tuple) and f.kind[0] == "list":
      if v is None:
        raise Unsupported("None stored in list field " + name)
      s = as_seq(v).snap()
      self.write_list(name, t, s.length(), s.get)
      return
    old, zv = f.get, z(v)
    self._log(name, t, "value", zv)
    f = f.copy()
    f.get = lambda r: z3.If(r == t, zv, old(r)) if not (r is t) else zv
    self.fields[name] = f

  def write_list(self, name, t, n, get):
    self.version += 1
    self.writes.add(name)
    f = self.fields[name].copy()
    self._log(name, t, "list", n, get)
    ol, oe = f.len, f.elem
    zn = z(n)
    f.len = lambda r: z3.If(r == t, zn, ol(r))

    def elem(r, k):
      c = simp(r == t)
      if z3.is_false(c):
        return oe(r, k)
      if isinstance(n, int) and n == 0:
        return oe(r, k)
      if z3.is_true(c):
        return z(get(k))
      return z3.If(c, z(get(k)), oe(r, k))

    f.elem = elem
    if z3.is_int_value(simp(ol(z3.Int("probe")))) and simp(
        ol(z3.Int("probe"))).eq(simp(zn)):
      f.len = ol
    self.fields[name] = f

  def indexed_alloc(self, get, k, n):
    """Evaluates an allocating element expression once for an arbitrary index
    0 <= k < n: the objects of a comprehension are the block of references
    base, ..., base + n - 1, all initialised alike."""
    base = simp(self.alloc_base + self.allocated)
    probe = self.snapshot()
    saved = dict(self.fields)
    allocated, version, writes = self.allocated, self.version, set(self.writes)
    ref = base + k
    self.block = dict(ref=ref, cls=None, log=[])
    try:
      r = get(k)
      block = self.block
    finally:
      self.block = None
      self.fields, self.version = saved, version
    if block["cls"] is None:
      self.writes = writes
      return None
    if not (isinstance(r, SymRef) and r.t.eq(ref)):
      raise Unsupported("allocating comprehension with another result")
    zn = z(n)
    inside = lambda x: z3.And(x >= base, x < base + zn)
    sub = lambda t, x: z3.substitute(t, (k, x - base))
    for name, kind, a, b in block["log"]:
      f = self.fields[name].copy()
      if kind == "list":
        ol, oe, ln, el = f.len, f.elem, z(a), b
        if not (z3.is_int_value(simp(ol(z3.Int("probe")))) and simp(
            ol(z3.Int("probe"))).eq(simp(ln))):
          f.len = lambda x, ol=ol, ln=ln: z3.If(inside(x), sub(ln, x), ol(x))
        f.elem = lambda x, j, oe=oe, el=el: z3.If(
            inside(x), sub(z(el(j)), x), oe(x, j))
      else:
        f.get = lambda x, og=f.get, a=a: z3.If(inside(x), sub(a, x), og(x))
      self.fields[name] = f
      self.writes.add(name)
    self.version += 1
    self.alloc_base, self.allocated = simp(base + zn), 0
    cls = block["cls"]
    return SymList(n, lambda j: SymRef(simp(base + j), cls))

  def _log(self, name, t, kind, a, b=None):
    if self.block is None:
      return
    if not simp(t).eq(simp(self.block["ref"])):
      raise Unsupported("write to another object in an allocating "
                        "comprehension")
    self.block["log"].append((name, kind, a, b))

  def new(self, cls):
    if self.block is not None:
      if self.block["cls"] is not None:
        raise Unsupported("two allocations per element")
      self.block["cls"] = cls
      return SymRef(self.block["ref"], cls)
    if CTX.pure:
      raise Unsupported("allocation inside a quantified comprehension")
    t = simp(self.alloc_base + self.allocated)
    self.allocated += 1
    return SymRef(t, cls)
