"""Runtime that the extracted code runs on."""
import builtins, operator, sys, time, types
import z3
from . import core
from .core import *
from .data import *
from . import npshim

LOOPS = {}          # loop id -> LoopSpec (installed by the running contract)
MODULES = {}
HEAP_CLASSES = {}
AFTER_IMPORT = []


class Undef:

  def __repr__(self):
    return "<undef>"

  def __getattr__(self, n):
    raise Unsupported("value not defined by the loop contract")

  def __bool__(self):
    raise Unsupported("value not defined by the loop contract")


UNDEF = Undef()


def enter(name):
  CTX.used.add(name)
  if CTX.deadline and time.time() > CTX.deadline:
    raise Unsupported("contract time limit")


def after_import(module):
  MODULES[module.__name__] = module
  for f in AFTER_IMPORT:
    f(module)


# -- operators ---------------------------------------------------------------
def is_(a, b):
  if isinstance(a, SymRef) or isinstance(b, SymRef):
    if isinstance(a, SymRef):
      return a.__eq__(b)
    return b.__eq__(a)
  if isinstance(a, Sym) and b is None:
    if isinstance(a, SymNum) and a.is_int:
      return wrap(simp(a.t == NONE))
    if isinstance(a, SymVal):
      return wrap(simp(a.t == NONE))
    return False
  if isinstance(a, SymBool) and isinstance(b, bool):
    return a == b
  if isinstance(a, SymVal) and isinstance(b, SymVal):
    return a == b
  h = getattr(a, "is_same", None)
  if h is not None:
    return h(b)
  return a is b


def not_(a):
  if isinstance(a, SymBool):
    return wrap(z3.simplify(z3.Not(a.t)))
  return not a


def isnot(a, b):
  return not_(is_(a, b))


def in_(x, s):
  c = getattr(s, "contains", None)
  if c is not None and isinstance(s, (SeqBase, ASet, ADict)):
    return c(x)
  if isinstance(s, (list, tuple)) and (isinstance(x, Sym) or any(
      isinstance(y, Sym) for y in s)):
    return as_seq(s).contains(x)
  return x in s


def notin(x, s):
  return not_(in_(x, s))


def eq_(a, b):
  if isinstance(b, (SymNum, SymVal, SymRef, SeqBase)) and not isinstance(
      a, Sym):
    if isinstance(a, (list, tuple)) and isinstance(b, SeqBase):
      return b == a
    if isinstance(a, (int, float, str, bool)) or a is None:
      return b == a
  if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and type(
      a) == type(b):
    if any(isinstance(x, Sym) for x in a) or any(
        isinstance(x, Sym) for x in b):
      if len(a) != len(b):
        return False
      return and_(*[(lambda x=x, y=y: eq_(x, y)) for x, y in zip(a, b)]) \
          if a else True
  return a == b


def ne_(a, b):
  r = eq_(a, b)
  if isinstance(r, SymBool):
    return not_(r)
  return a != b


def and_(*fs):
  acc = None
  for i, f in enumerate(fs):
    v = f()
    if isinstance(v, SymBool):
      if CTX.pure:
        acc = v if acc is None else wrap(
            z3.simplify(z3.And(zbool(acc), v.t)))
        continue
      if i == len(fs) - 1:
        return v
      if not v:
        return False
      continue
    if isinstance(v, (bool,)) and acc is not None:
      if not v:
        return False
      continue
    if i == len(fs) - 1:
      return v if acc is None else acc
    if not v:
      return v
  return acc if acc is not None else v


def or_(*fs):
  acc = None
  for i, f in enumerate(fs):
    v = f()
    if isinstance(v, SymBool):
      if CTX.pure:
        acc = v if acc is None else wrap(z3.simplify(z3.Or(zbool(acc), v.t)))
        continue
      if i == len(fs) - 1:
        return v
      if v:
        return True
      continue
    if isinstance(v, (bool,)) and acc is not None:
      if v:
        return True
      continue
    if i == len(fs) - 1:
      return v if acc is None else acc
    if v:
      return v
  return acc if acc is not None else v


def ifexp(c, a, b):
  if isinstance(c, SymBool) and CTX.pure:
    t = z3.simplify(c.t)
    if z3.is_true(t):
      return a()
    if z3.is_false(t):
      return b()
    return ite(t, a(), b())
  return a() if c else b()


def getitem(o, i):
  if isinstance(o, (list, tuple)):
    if isinstance(i, slice):
      if any(isinstance(x, Sym) for x in (i.start, i.stop, i.step)):
        s = as_seq(o).slice(i)
        return s
      return o[i]
    if isinstance(i, Sym):
      return as_seq(o).getitem(i)
    return o[i]
  if isinstance(o, (SeqBase, SymRef)):
    return o.getitem(i)
  if isinstance(o, dict) and (isinstance(i, Sym) or not is_native_key(i)):
    for k, v in o.items():
      if wrap(simp(eq(k, i))):
        return v
    raise KeyError(repr(i))
  h = getattr(type(o), "getitem", None)
  if h is not None:
    return o.getitem(i)
  return o[i]


def setitem(o, i, v):
  if isinstance(o, list) and isinstance(i, Sym):
    k = enumerate_int(i, -len(o), len(o))
    o[k] = v
    return
  if isinstance(o, list) and isinstance(i, slice) and isinstance(v, SeqBase):
    o[i] = list(v)
    return
  if isinstance(o, dict) and not is_native_key(i):
    raise Unsupported("symbolic key in a native dict")
  o[i] = v


def delitem(o, i):
  if isinstance(o, list) and isinstance(i, Sym):
    i = enumerate_int(i, -len(o), len(o))
  if isinstance(o, SymList):
    o.pop(i)
    return
  del o[i]


IOPS = {
    "Add": (operator.iadd, "__add__"), "Sub": (operator.isub, ""),
    "Mult": (operator.imul, ""), "Div": (operator.itruediv, ""),
    "FloorDiv": (operator.ifloordiv, ""), "Mod": (operator.imod, ""),
    "Pow": (operator.ipow, ""), "MatMult": (operator.imatmul, ""),
    "BitOr": (operator.ior, ""), "BitAnd": (operator.iand, ""),
    "BitXor": (operator.ixor, ""), "LShift": (operator.ilshift, ""),
    "RShift": (operator.irshift, "")
}


def iop(op, a, b):
  if op == "Add" and isinstance(a, list) and isinstance(b, SeqBase):
    if b.clen() is not None:
      a += list(b)
      return a
    raise Unsupported("in-place concatenation of a symbolic sequence")
  return IOPS[op][0](a, b)


def mkset(items):
  return ASet(items)


def mkdict(pairs):
  if CTX.heap is None and not any(
      isinstance(k, Sym) for k, _ in pairs):
    return ADict(pairs)
  return ADict(pairs)


# -- comprehensions ----------------------------------------------------------
def _unflat(x, pat, out):
  if pat is None:
    out.append(x)
    return
  items = list(x) if not isinstance(x, tuple) else x
  if len(items) != len(pat):
    raise ValueError("not enough / too many values to unpack")
  for y, p in zip(items, pat):
    _unflat(y, p, out)


def unflat(x, pat):
  out = []
  _unflat(x, pat, out)
  return out


def concrete_iter(it):
  """A native list of the elements, or None when the length is symbolic."""
  if isinstance(it, SeqBase):
    n = it.clen()
    if n is None and CTX.mode == "bounded" and not CTX.pure:
      n = enumerate_int(it.length(), 0, 2 * CTX.bound + 2)
    if n is None:
      return None
    return [it.get(z3.IntVal(k)) for k in range(n)]
  if isinstance(it, ASet) and it.pred is not None:
    return None
  return it


def comp(kind, it, pat, f, cond):
  elems = concrete_iter(it)
  if elems is not None:

    def gen():
      for x in elems:
        args = unflat(x, pat)
        if cond is not None and not cond(*args):
          continue
        yield f(*args)

    if kind == "gen":
      return gen()
    if kind == "set":
      return ASet(gen())
    if kind == "dict":
      return ADict(gen())
    return list(gen())
  if kind in ("set", "dict", "nest"):
    raise Unsupported(kind + " comprehension over a symbolic sequence")
  if isinstance(it, ASet):
    raise Unsupported("comprehension over a symbolic set")
  src = as_seq(it).snap()
  n = src.length()
  if cond is not None:
    src, n = filtered(src, n, lambda x: zbool(cond(*unflat(x, pat))))

  def get(k):
    return pure_eval(lambda: f(*unflat(src.get(k), pat)), k, n)

  allocs = probe_alloc(get, n)
  if allocs is not None:
    return allocs
  return SymList(n, get)


def pure_eval(thunk, k, n):
  """Evaluates thunk for an arbitrary index without forking."""
  ver = CTX.heap.version if CTX.heap is not None else 0
  CTX.solver.push()
  na = len(CTX.assumptions)
  CTX.solver.add(z3.And(k >= 0, k < z(n)))
  CTX.pure += 1
  try:
    r = thunk()
  finally:
    CTX.pure -= 1
    CTX.solver.pop()
    extra = CTX.assumptions[na:]
    if extra:
      # facts learnt about constants created under the quantifier
      for a in extra:
        CTX.solver.add(a)
  if CTX.heap is not None and CTX.heap.version != ver and not CTX.heap.block:
    raise Unsupported("side effect inside a quantified comprehension")
  return r


def probe_alloc(get, n):
  """Evaluates the element once for an arbitrary index so that exceptions,
  side effects and unsupported forks surface where the comprehension is."""
  if CTX.branch(z(n) > 0):
    k = CTX.int("k")
    heap = CTX.heap
    if heap is not None and hasattr(heap, "indexed_alloc"):
      return heap.indexed_alloc(get, k, n)
    get(k)
    return None
  return []


def filtered(src, n, pred):
  """Subsequence of the elements satisfying pred (definitional axioms)."""
  m = CTX.int("flen")
  pos = CTX.func("fpos", z3.IntSort(), z3.IntSort())
  inv = CTX.func("finv", z3.IntSort(), z3.IntSort())
  p = lambda k: pure_eval(lambda: pred(src.get(k)), k, n)
  zn = z(n)
  CTX.assume(z3.And(m >= 0, m <= zn))
  j, k = CTX.int("j"), CTX.int("k")
  CTX.assume(
      z3.ForAll([j], z3.Implies(
          z3.And(j >= 0, j < m),
          z3.And(pos(j) >= 0, pos(j) < zn, p(pos(j)), inv(pos(j)) == j)),
                patterns=[pos(j)]))
  CTX.assume(
      z3.ForAll([k], z3.Implies(
          z3.And(k >= 0, k < zn, p(k)),
          z3.And(inv(k) >= 0, inv(k) < m, pos(inv(k)) == k))))
  i = CTX.int("i")
  CTX.assume(
      z3.ForAll([i, j], z3.Implies(
          z3.And(i >= 0, i < j, j < m), pos(i) < pos(j)),
                patterns=[z3.MultiPattern(pos(i), pos(j))]))
  return SymTuple(wrap(m), lambda q: src.get(pos(q))), wrap(m)


def flat(kind, depth, nested):

  def go(x, d):
    if d == 0:
      return [x]
    out = []
    for y in x:
      out += go(y, d - 1)
    return out

  elems = []
  for x in nested:
    elems += go(x, depth)
  if kind == "set":
    return ASet(elems)
  if kind == "dict":
    return ADict(elems)
  return elems


# -- loops ---------------------------------------------------------------------
class LoopSpec:
  """Invariant for one loop.  inv(c, k, L) -> formula (or list of (name,
  formula)); havoc(c, k, L) -> {local: fresh value}; fields: heap fields the
  body may write; L gives the locals."""

  def __init__(self, inv, havoc=None, fields=(), variant=None, alloc=None):
    self.inv, self.havoc, self.fields = inv, havoc, tuple(fields)
    self.alloc = alloc  # number of objects allocated by the first k iterations


class _Default:
  alloc = None
  inv = staticmethod(lambda c, k, L: True)
  havoc = None
  fields = ()


class LState:
  pass


class LoopIter:

  def __init__(self, lid, seq, spec):
    self.lid, self.seq, self.spec = lid, seq, spec
    self.stage = 0
    self.n = seq.length() if seq is not None else None

  def __iter__(self):
    return self

  def entry_state(self, fl):
    """The state before the loop, for invariants (L["@entry"] is the heap)."""
    if not hasattr(self, "entry"):
      self.entry = CTX.heap.snapshot() if CTX.heap is not None else None
      self.locals0 = dict(fl)
    fl["@entry"], fl["@locals"] = self.entry, self.locals0

  def check(self, k, frame_locals, when):
    self.entry_state(frame_locals)
    r = self.spec.inv(CTX, k, frame_locals)
    if not isinstance(r, (list, tuple)):
      r = [("invariant", r)]
    for nm, f in r:
      CTX.prove(f"{self.lid} {nm} {when}", f)

  def assume(self, k, frame_locals):
    self.entry_state(frame_locals)
    r = self.spec.inv(CTX, k, frame_locals)
    if not isinstance(r, (list, tuple)):
      r = [("invariant", r)]
    for _, f in r:
      CTX.assume(zbool(f))

  def __next__(self):
    fl = dict(sys._getframe(1).f_locals)
    if self.stage == 0:
      CTX.loop_stack.append(self)
      self.check(z3.IntVal(0), fl, "holds on entry")
      self.mode = CTX.choose(2)  # 0: arbitrary iteration, 1: after the loop
      if self.mode == 1:
        self.k = z(self.n)
        self.stage = 3
        raise StopIteration
      self.k = CTX.int("k")
      CTX.assume(z3.And(self.k >= 0, self.k < z(self.n)))
      self.stage = 1
      return self.seq.get(self.k)
    # end of one arbitrary iteration
    self.check(simp(self.k + 1), fl, "is preserved")
    self.check_frame(fl)
    raise EndPath()

  def havoc(self, names, L):
    """Fresh loop state satisfying the invariant at self.k."""
    if CTX.heap is not None:
      for f in self.spec.fields:
        CTX.heap.havoc(f)
      CTX.heap.writes = set()
      if self.spec.alloc is not None:
        e = self.entry
        CTX.heap.alloc_base = simp(e.alloc_base + e.allocated +
                                   self.spec.alloc(self.k))
        CTX.heap.allocated = 0
      self.alloc0 = simp(CTX.heap.alloc_base + CTX.heap.allocated)
    new = dict(L)
    hv = self.spec.havoc(CTX, self.k, L) if self.spec.havoc else {}
    for n in names:
      new[n] = hv.get(n, UNDEF)
    for n in hv:
      if n not in names:
        # mutated in place, not rebound
        o = L.get(n)
        if isinstance(o, SymList) and isinstance(hv[n], SeqBase):
          o.set_content(hv[n].length(), hv[n].snap().get)
        elif o is not None:
          self.replace = getattr(self, "replace", {})
          self.replace[n] = hv[n]
        new[n] = hv[n] if o is None or not isinstance(o, SymList) else o
    self.assume(self.k, new)
    return new

  def check_frame(self, L):
    if CTX.heap is not None:
      now = simp(CTX.heap.alloc_base + CTX.heap.allocated)
      if self.spec.alloc is None:
        if not now.eq(self.alloc0):
          raise Unsupported(f"{self.lid} allocates outside its contract")
      else:
        e = self.entry
        CTX.prove(f"{self.lid} allocates as stated", now == e.alloc_base +
                  e.allocated + self.spec.alloc(simp(self.k + 1)))
      extra = CTX.heap.writes - set(self.spec.fields)
      if extra:
        raise Unsupported(f"{self.lid} writes {extra} outside its frame")
    for n, (o, ln) in self.natives.items():
      if len(o) != ln:
        raise Unsupported(f"{self.lid} mutates list {n} outside its frame")


def loop(lid, it):
  elems = concrete_iter(it)
  if elems is not None:
    return iter(elems)
  if isinstance(it, ASet):
    it = enumerate_set(it)
  if CTX.pure:
    raise Unsupported("loop under a quantifier")
  spec = LOOPS.get(lid, _Default)
  return LoopIter(lid, as_seq(it), spec)


def enumerate_set(s):
  """An arbitrary enumeration of a symbolic set: distinct, and exactly s."""
  n = CTX.int("card")
  f = CTX.func("enum", z3.IntSort(), z3.IntSort())
  g = CTX.func("enuminv", z3.IntSort(), z3.IntSort())
  CTX.assume(n >= 0)
  k, x = CTX.int("k"), CTX.int("x")
  CTX.assume(
      z3.ForAll([k], z3.Implies(
          z3.And(k >= 0, k < n), z3.And(s.has(f(k)), g(f(k)) == k)),
                patterns=[f(k)]))
  CTX.assume(
      z3.ForAll([x], z3.Implies(
          s.has(x), z3.And(g(x) >= 0, g(x) < n, f(g(x)) == x)),
                patterns=[g(x)]))
  s.enum = (n, f, g)
  rw = s.rewrap or wrap
  return SymTuple(wrap(n), lambda k: rw(f(k)))


def _frame_iter(L):
  return None


def loop_body(lid, names, L):
  st = CTX.loop_stack[-1] if CTX.loop_stack else None
  if isinstance(st, LoopIter) and st.lid == lid and st.stage == 1:
    st.stage = 2
    new = st.havoc(names, dict(L))
    st.natives = {
        n: (o, len(o)) for n, o in L.items() if isinstance(o, list)
    }
    st.replaced = getattr(st, "replace", {})
    if st.replaced:
      raise Unsupported("loop contract must rebind mutated native lists")
    return tuple(new[n] for n in names)
  return tuple(L.get(n, UNDEF) for n in names)


def loop_exit(lid, names, L):
  st = CTX.loop_stack[-1] if CTX.loop_stack else None
  if isinstance(st, LoopIter) and st.lid == lid:
    CTX.loop_stack.pop()
    if st.stage == 3:
      new = st.havoc(names, dict(L))
      return tuple(new[n] for n in names)
    # left through break: the current state is the state of iteration k
  return tuple(L.get(n, UNDEF) for n in names)


def while_(lid):
  spec = LOOPS.get(lid)
  if spec is None or CTX.mode == "bounded":
    return _unrolled(lid)
  return WhileIter(lid, None, spec)


def _unrolled(lid):
  for k in range(200):
    yield k
  raise Unsupported("while loop unrolled too far: " + lid)


class WhileIter(LoopIter):

  def __next__(self):
    fl = dict(sys._getframe(1).f_locals)
    if self.stage == 0:
      CTX.loop_stack.append(self)
      self.check(z3.IntVal(0), fl, "holds on entry")
      self.k = CTX.int("k")
      CTX.assume(self.k >= 0)
      self.stage = 1
      return 0
    self.check(simp(self.k + 1), fl, "is preserved")
    self.check_frame(fl)
    raise EndPath()


# -- builtins ------------------------------------------------------------------
def v_len(x):
  if isinstance(x, ASet) and x.pred is not None and x.img is not None and (
      x.cond is None):
    # size of the image of a sequence: its length iff the elements differ
    n, get = x.img
    m = CTX.int("card")
    CTX.assume(z3.And(m >= 0, m <= z(n), z3.Implies(z(n) > 0, m >= 1)))
    CTX.assume((m == z(n)) == forall(0, n, lambda j: forall(
        0, j, lambda i: get(i) != get(j))))
    return wrap(m)
  if isinstance(x, SeqBase):
    return x.length()
  if hasattr(x, "sym_len"):
    return x.sym_len()
  return builtins.len(x)


def pytype(x):
  if isinstance(x, SymRef):
    return x.cls
  if isinstance(x, SymBool):
    return bool
  if isinstance(x, SymNum):
    return int if x.is_int else float
  if isinstance(x, SymVal):
    return str if x.kind in ("str", "optstr") else object
  if isinstance(x, SeqBase):
    return x.native
  if isinstance(x, ASet):
    return set
  if isinstance(x, ADict):
    return dict
  t = getattr(x, "pytype", None)
  if t is not None and isinstance(t, type):
    return t
  return builtins.type(x)


UNSHADOW = {}


def real_type(t):
  if isinstance(t, tuple):
    return tuple(real_type(x) for x in t)
  return UNSHADOW.get(t, t) if isinstance(t, type) else t


def v_isinstance(x, t):
  t = real_type(t)
  if isinstance(x, (Sym, ASet, ADict)) or hasattr(x, "pytype"):
    pt = pytype(x)
    if isinstance(t, tuple):
      return any(v_isinstance(x, y) for y in t)
    origin = getattr(t, "__origin__", None)
    if origin is not None:
      t = origin if isinstance(origin, type) else t
    try:
      return issubclass(pt, t)
    except TypeError:
      return builtins.isinstance(x, t)
  return builtins.isinstance(x, t)


class Shadow(type):

  def __instancecheck__(cls, x):
    return v_isinstance(x, cls.real)

  def __subclasscheck__(cls, c):
    return issubclass(real_type(c), cls.real)

  def __getattr__(cls, n):
    return getattr(cls.real, n)

  def __eq__(cls, o):
    return o is cls or o is cls.real or real_type(o) is cls.real

  def __hash__(cls):
    return hash(cls.real)

  def __repr__(cls):
    return repr(cls.real)

  def __getitem__(cls, k):
    return cls.real[k]

  def __or__(cls, o):
    return cls.real | real_type(o)


def shadow(real, make):

  def new(cls, *a, **k):
    return make(*a, **k)

  c = Shadow("v_" + real.__name__, (), {"real": real, "__new__": new})
  UNSHADOW[c] = real
  return c


def _list(x=()):
  if isinstance(x, SeqBase):
    n = x.clen()
    if n is None:
      s = x.snap()
      return SymList(s.length(), s.get)
    return [x.get(z3.IntVal(k)) for k in range(n)]
  if isinstance(x, ASet) and x.pred is not None:
    s = enumerate_set(x)
    return SymList(s.length(), s.get)
  if hasattr(x, "as_seq"):
    return _list(x.as_seq())
  return list(x)


def _tuple(x=()):
  if isinstance(x, SeqBase):
    n = x.clen()
    if n is None:
      s = x.snap()
      return SymTuple(s.length(), s.get)
    return tuple(x.get(z3.IntVal(k)) for k in range(n))
  if hasattr(x, "as_seq"):
    return _tuple(x.as_seq())
  return tuple(x)


def _set(x=()):
  if isinstance(x, SeqBase) and x.clen() is None:
    s = x.snap()
    rw = None
    probe = s.get(CTX.int("probe"))
    if isinstance(probe, SymRef):
      rw = probe.rewrap
    r = ASet(
        pred=lambda y: exists(0, s.length(), lambda k: z(s.get(k)) == y),
        rewrap=rw)
    r.img = (s.length(), lambda k: z(s.get(k)))
    if isinstance(x, SymRange) and isinstance(x.lo, int) and x.lo == 0:
      r.less = (x.hi, [])
    return r
  if isinstance(x, ASet):
    return x.copy()
  if isinstance(x, (list, tuple)) and not any(
      not is_native_key(y) for y in x):
    return ASet(dict.fromkeys(x)) if False else ASet(x)
  return ASet(x)


def _dict(*a, **k):
  d = ADict()
  if a:
    d.update(a[0])
  d.update(**k)
  return d


def _int(x=0, *a):
  if isinstance(x, SymNum):
    if x.is_int:
      return x
    return wrap(
        simp(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t))))
  if isinstance(x, SymBool):
    return wrap(b2i(x.t))
  h = getattr(x, "sym_int", None)
  if h:
    return h()
  return int(x, *a)


def _float(x=0.0):
  if isinstance(x, SymNum):
    return wrap(simp(z3.ToReal(x.t) if x.is_int else x.t))
  return float(x)


def _bool(x=False):
  if isinstance(x, SymBool):
    return x
  return bool(x)


def _str(x="", *a):
  if isinstance(x, SymVal):
    return x
  if isinstance(x, SymNum):
    f = z3.Function("str_of_int", z3.IntSort(), z3.IntSort())
    return SymVal(f(x.t), "str")
  return str(x, *a)


def _range(*a):
  if all(isinstance(x, int) for x in a):
    return range(*a)
  if len(a) == 3:
    a = [x if not isinstance(x, Sym) else x for x in a]
    lo, hi, st = a
    if st == 1:
      return SymRange(lo, hi)
    if st == -1:
      n = wrap(simp(z3.If(z(lo) > z(hi), z(lo) - z(hi), 0)))
      return SymTuple(n, lambda k: wrap(simp(z(lo) - k)))
    raise Unsupported("range step")
  return SymRange(*(a if len(a) == 2 else (0, a[0])))


def issym(x):
  return (isinstance(x, SeqBase) and x.clen() is None) or (isinstance(
      x, ASet) and x.pred is not None)


def _enumerate(x, start=0):
  if issym(x):
    s = as_seq(x)
    live = s
    return SymTuple(s.length(), lambda k: (wrap(simp(k + start)), live.get(k)))
  return enumerate(x, start)


def _zip(*xs):
  if any(issym(x) for x in xs):
    ss = [as_seq(x).snap() for x in xs]
    n = z(ss[0].length())
    for s in ss[1:]:
      m = z(s.length())
      n = z3.If(m < n, m, n)
    n = simp(n)
    # prefer a single symbol when all lengths are provably equal
    for s in ss[1:]:
      if CTX.feasible(z(ss[0].length()) != z(s.length())) == z3.unsat:
        n = z(ss[0].length())
    return SymTuple(wrap(n), lambda k: tuple(s.get(k) for s in ss))
  return zip(*xs)


def _reversed(x):
  if isinstance(x, SeqBase):
    return x.slice(slice(None, None, -1))
  if isinstance(x, (ADict, ASet)):
    return reversed(list(x))
  return reversed(x)


def _minmax(name, pick):

  def f(*a, **k):
    xs = a[0] if len(a) == 1 else a
    if issym(xs):
      s = as_seq(xs).snap()
      n = s.length()
      if not bool(n > 0):
        if "default" in k:
          return k["default"]
        raise ValueError(name + "() arg is an empty sequence")
      at = CTX.int("at")
      CTX.assume(z3.And(at >= 0, at < z(n)))
      m = s.get(at)
      if "key" in k:
        raise Unsupported(name + " with key")
      CTX.assume(forall(0, n, lambda j: pick(z(m), z(s.get(j)))))
      return m
    xs = list(xs)
    if k.get("key") is None and any(isinstance(x, SymNum) for x in xs):
      r = xs[0]
      for y in xs[1:]:
        r = ite(pick(*core._lift(r, y)), r, y)
      return r
    return getattr(builtins, name)(xs, **k)

  return f


v_min = _minmax("min", lambda a, b: a <= b)
v_max = _minmax("max", lambda a, b: a >= b)


def sorted_range(s):
  """sorted(range(n) minus some numbers): the holes are split off by cases."""
  n, holes = s.less
  at = []
  for h in holes:
    if wrap(simp(z3.And(z(h) >= 0, z(h) < z(n)))) and not any(
        bool(wrap(simp(eq(h, g)))) for g in at):
      at.append(h)
  at = builtins.sorted(at)

  def get(k):
    for h in at:
      k = z3.If(k >= z(h), k + 1, k)
    return wrap(simp(k))

  return SymList(wrap(simp(z(n) - len(at))), get)


def _sorted(xs, key=None, reverse=False):
  if isinstance(xs, ASet) and xs.pred is not None and (
      xs.less is not None and key is None and not reverse):
    return sorted_range(xs)
  if issym(xs):
    raise Unsupported("sorted() of a symbolic sequence")
  return builtins.sorted(list(xs), key=key, reverse=reverse)


def v_sum(xs, start=0):
  if issym(xs):
    raise Unsupported("sum() of a symbolic sequence")
  return builtins.sum(list(xs), start)


def v_all(xs):
  if issym(xs):
    s = as_seq(xs).snap()
    return wrap(simp(forall(0, s.length(), lambda k: zbool(s.get(k)))))
  return builtins.all(xs)


def v_any(xs):
  if issym(xs):
    s = as_seq(xs).snap()
    return wrap(simp(exists(0, s.length(), lambda k: zbool(s.get(k)))))
  return builtins.any(xs)


def v_type(*a):
  if len(a) == 1:
    return pytype(a[0])
  return builtins.type(*a)


def v_map(f, *xs):
  if any(issym(x) for x in xs):
    s = _zip(*xs)
    return comp("list", s, None, lambda t: f(*t), None)
  return map(f, *xs)


def v_filter(f, xs):
  if issym(xs):
    return comp("list", xs, None, lambda t: t,
                f if f is not None else (lambda t: t))
  return filter(f, xs)


def v_hasattr(o, n):
  if isinstance(o, SymRef):
    return n in CTX.heap.fields or bool(
        any(n in c.__dict__ for c in o.cls.__mro__))
  return builtins.hasattr(o, n)


def v_id(o):
  if isinstance(o, SymRef):
    return wrap(o.t)
  return builtins.id(o)


class SuperProxy:

  def __new__(cls, c, ref):
    p = object.__new__(cls)
    object.__setattr__(p, "_c", c)
    object.__setattr__(p, "_r", ref)
    return p

  def __getattribute__(self, n):
    here, ref = (object.__getattribute__(self, a) for a in ("_c", "_r"))
    mro = ref.cls.__mro__
    for c in mro[mro.index(here) + 1:]:
      if n in c.__dict__:
        d = c.__dict__[n]
        if c is object:
          return lambda *a, **k: None
        if isinstance(d, property):
          return d.fget(ref)
        return types.MethodType(d, ref)
    raise AttributeError(n)


def v_super(*a):
  if a:
    cls, obj = a
  else:
    fr = sys._getframe(1)
    cls = fr.f_locals["__class__"]
    obj = fr.f_locals[fr.f_code.co_varnames[0]]
  if isinstance(obj, SymRef):
    return SuperProxy(cls, obj)
  return builtins.super(cls, obj)


BUILTINS = {
    "len": v_len,
    "isinstance": v_isinstance,
    "range": shadow(range, _range),
    "list": shadow(list, _list),
    "tuple": shadow(tuple, _tuple),
    "set": shadow(set, _set),
    "frozenset": shadow(frozenset, _set),
    "dict": shadow(dict, _dict),
    "int": shadow(int, _int),
    "float": shadow(float, _float),
    "bool": shadow(bool, _bool),
    "str": shadow(str, _str),
    "enumerate": _enumerate,
    "zip": _zip,
    "reversed": _reversed,
    "min": v_min,
    "max": v_max,
    "sorted": _sorted,
    "sum": v_sum,
    "all": v_all,
    "any": v_any,
    "type": v_type,
    "map": v_map,
    "filter": v_filter,
    "hasattr": v_hasattr,
    "id": v_id,
    "super": v_super,
}
UNSHADOW[v_type] = type
