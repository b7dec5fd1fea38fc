"""Path-wise verification-condition generation.

`CTX` holds the current path: a list of assumptions, the decisions taken so far
and the obligations generated.  A contract is executed once per path (decision
prefix); every branch on a symbolic condition is a decision, every obligation
is sent to z3 (then cvc5) under the path's assumptions.
"""
import fractions, subprocess, tempfile, os, time, itertools
import z3

NONE = -1000003          # encoding of None among refs / optional ints


class Unsupported(BaseException):
  """The code left the subset this verifier can decide (never an alarm)."""


class EndPath(BaseException):
  """The path is finished (loop step checked, or infeasible)."""


class Obligation:

  def __init__(self, name, status, detail="", backend="z3", time=0.0,
               model=None):
    self.name, self.status, self.detail = name, status, detail
    self.backend, self.time, self.model = backend, time, model


class Ctx:

  def __init__(self):
    self.timeout = 8000
    self.mode = "unbounded"
    self.bound = 2
    self.reset_contract()

  def reset_contract(self):
    self.obligations = []
    self.paths = 0
    self.covered = set()
    self.solver_time = 0.0
    self.used = set()      # functions executed symbolically
    self.trusted = set()   # models relied upon
    self.max_paths = 3000
    self.deadline = None

  def reset_path(self, prefix):
    self.prefix = prefix
    self.decisions = []
    self.pending = []
    self.picks = []
    self.assumptions = []
    self.known = {}
    self.solver = z3.SimpleSolver()
    self.solver.set("timeout", 1000)
    self.solver.set("mbqi", False)
    self.qf = z3.SimpleSolver()
    self.qf.set("timeout", 1000)
    self.quantified = False
    self.counter = itertools.count()
    self.pure = 0
    self.heap = None
    self.any_set_order = False
    self.loop_stack = []
    self.notes = []

  # -- naming ---------------------------------------------------------------
  def name(self, base):
    return f"{base}!{next(self.counter)}"

  def int(self, base="i"):
    return z3.Int(self.name(base))

  def real(self, base="r"):
    return z3.Real(self.name(base))

  def bool(self, base="b"):
    return z3.Bool(self.name(base))

  def func(self, base, *sorts):
    return z3.Function(self.name(base), *sorts)

  # -- logic ----------------------------------------------------------------
  def assume(self, f):
    f = zbool(f)
    if z3.is_true(f):
      return
    self.assumptions.append(f)
    s = z3.simplify(f)
    self.known[s.get_id()] = s
    self.solver.add(f)
    if has_quantifier(f):
      self.quantified = True
    else:
      self.qf.add(f)

  def feasible(self, f):
    if self.deadline and time.time() > self.deadline:
      raise Unsupported("contract time limit")
    t = time.time()
    r = _check(self.qf, f)
    if r != z3.unsat and (self.quantified or self.pure or has_quantifier(f)):
      r = _check(self.solver, f)
    self.solver_time += time.time() - t
    return r

  def decide(self, options):
    """options: list of (label, condition).  Picks one feasible option."""
    pos = len(self.decisions)
    if pos < len(self.prefix):
      k = self.prefix[pos]
    else:
      ok = []
      for i, (_, cond) in enumerate(options):
        if z3.is_false(cond):
          continue
        if self.feasible(cond) != z3.unsat:
          ok.append(i)
      if not ok:
        raise EndPath()
      k = ok[0]
      for other in ok[1:]:
        self.pending.append(self.decisions + [other])
    self.decisions.append(k)
    self.assume(options[k][1])
    return k

  def branch(self, cond):
    cond = z3.simplify(cond)
    if z3.is_true(cond):
      return True
    if z3.is_false(cond):
      return False
    if cond.get_id() in self.known:
      return True
    if z3.simplify(z3.Not(cond)).get_id() in self.known:
      return False
    if self.pure:
      if self.feasible(cond) == z3.unsat:
        return False
      if self.feasible(z3.Not(cond)) == z3.unsat:
        return True
      raise Unsupported("data dependent branch under a quantifier: " +
                        str(cond)[:120])
    return self.decide([("T", cond), ("F", z3.Not(cond))]) == 0

  def choose(self, n):
    return self.decide([(str(i), z3.BoolVal(True)) for i in range(n)])

  # -- obligations ----------------------------------------------------------
  def prove(self, name, goal):
    """Generates and discharges one obligation on this path."""
    goal = zbool(goal)
    t = time.time()
    if z3.is_and(goal) and len(goal.children()) > 1 and self.mode != "bounded":
      ok = True
      for g in goal.children():
        ok = self.prove(name, g) and ok
      return ok
    if z3.is_implies(goal) and self.mode != "bounded":
      pre, post = goal.children()
      if z3.is_implies(post):
        return self.prove(name, z3.Implies(z3.And(pre, post.arg(0)),
                                           post.arg(1)))
      if z3.is_and(post) and len(post.children()) > 1:
        ok = True
        for g in post.children():
          ok = self.prove(name, z3.Implies(pre, g)) and ok
        return ok
    sg = z3.simplify(goal)
    if z3.is_true(sg):
      self._record(name, "proved", "simplifier", time.time() - t)
      return True
    quant = self.quantified or has_quantifier(goal)
    s = z3.SimpleSolver() if quant else z3.Solver()
    s.set("timeout", self.timeout)
    if quant:
      s.set("mbqi", False)
    s.add(*self.assumptions)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unknown and quant:
      s2 = z3.Solver()
      s2.set("timeout", min(self.timeout, 3000))
      s2.add(*s.assertions())
      r = s2.check()
      if r != z3.unknown:
        s = s2
    dt = time.time() - t
    self.solver_time += dt
    if r == z3.unsat:
      self._record(name, "proved", "z3", dt)
      self.assume(goal)
      return True
    if r == z3.sat:
      m = s.model()
      self._record(name, "failed", "z3", dt, str(m)[:3000],
                   f"path {self.decisions}; goal {str(goal)[:600]}")
      return False
    c = cvc5_check(s, self.timeout)
    dt = time.time() - t
    if c == "unsat":
      self._record(name, "proved", "cvc5", dt)
      self.assume(goal)
      return True
    self._record(name, "unknown", "z3+cvc5", dt, None,
                 f"path {self.decisions}; goal {str(goal)[:600]}")
    return False

  def _record(self, name, status, backend, dt, model=None, detail=""):
    if self.notes and detail:
      detail += " | " + "; ".join(str(n) for n in self.notes)[:600]
    o = Obligation(name, status, detail, backend, dt, model)
    o.picks = list(self.picks) if status != "proved" else None
    self.obligations.append(o)

  def fact(self, name, ok, detail=""):
    """An obligation decided by evaluation (normal-form comparison)."""
    self._record(name, "proved" if ok else "failed", "normal-form", 0.0, None,
                 "" if ok else f"path {self.decisions}; {detail}"[:1500])
    return ok

  def cover(self, label):
    self.covered.add(label)


CTX = Ctx()


def _check(solver, f):
  solver.push()
  solver.add(f)
  r = solver.check()
  solver.pop()
  return r


_hq = {}


def has_quantifier(f):
  todo, seen = [f], set()
  while todo:
    x = todo.pop()
    if z3.is_quantifier(x):
      return True
    i = x.get_id()
    if i in seen:
      continue
    seen.add(i)
    todo.extend(x.children())
  return False


def cvc5_check(solver, timeout):
  smt = "(set-logic ALL)\n" + solver.sexpr() + "\n(check-sat)\n"
  with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
    f.write(smt)
  try:
    out = subprocess.run(
        ["cvc5", "--lang=smt2", f"--tlimit={int(timeout)}", f.name],
        capture_output=True, text=True, timeout=timeout / 1000 + 10)
    return out.stdout.strip().splitlines()[-1] if out.stdout.strip() else "error"
  except Exception as e:  # pylint: disable=broad-except
    return "error"
  finally:
    os.unlink(f.name)


# -- value wrappers ----------------------------------------------------------
def zbool(f):
  if isinstance(f, SymBool):
    return f.t
  if isinstance(f, bool):
    return z3.BoolVal(f)
  return f


def z(x):
  """Python/wrapped value -> z3 term."""
  if isinstance(x, Sym):
    return x.t
  if x is None:
    return z3.IntVal(NONE)
  if isinstance(x, bool):
    return z3.BoolVal(x)
  if hasattr(x, "item") and not isinstance(x, z3.ExprRef) and getattr(
      x, "shape", None) == ():
    x = x.item()
  if isinstance(x, int):
    return z3.IntVal(x)
  if isinstance(x, float):
    return z3.RealVal(fractions.Fraction(x))
  if isinstance(x, str):
    return z3.IntVal(strcode(x))
  if isinstance(x, z3.ExprRef):
    return x
  raise Unsupported(f"no logical term for {type(x).__name__}")


_strcodes = {}


def strcode(s):
  return _strcodes.setdefault(s, -2000000 - len(_strcodes))


class Sym:
  t = None

  def __deepcopy__(self, memo):
    return self


def wrap(t):
  """z3 term -> wrapped value (python constant when it is one)."""
  if not isinstance(t, z3.ExprRef):
    return t
  if z3.is_bool(t):
    if z3.is_true(t):
      return True
    if z3.is_false(t):
      return False
    return SymBool(t)
  if z3.is_int_value(t):
    return t.as_long()
  if z3.is_arith(t):
    return SymNum(t)
  raise Unsupported("wrap " + str(t.sort()))


def simp(t):
  return z3.simplify(t) if isinstance(t, z3.ExprRef) else t


class SymBool(Sym):

  def __init__(self, t):
    self.t = t

  def __bool__(self):
    return CTX.branch(self.t)

  def __eq__(self, o):
    if isinstance(o, (bool, SymBool)):
      return wrap(z3.simplify(self.t == z(o)))
    return wrap(b2i(self.t)) == o

  def __ne__(self, o):
    return wrap(z3.Not(zbool(self.__eq__(o))))

  __hash__ = None

  def __and__(self, o):
    return wrap(z3.simplify(z3.And(self.t, zbool(o))))

  __rand__ = __and__

  def __or__(self, o):
    return wrap(z3.simplify(z3.Or(self.t, zbool(o))))

  __ror__ = __or__

  def __invert__(self):
    return wrap(z3.Not(self.t))

  def __add__(self, o):
    return wrap(b2i(self.t)) + o

  __radd__ = __add__

  def __mul__(self, o):
    return wrap(b2i(self.t)) * o

  __rmul__ = __mul__

  def __repr__(self):
    return f"<{str(self.t)[:40]}>"


def b2i(t):
  return z3.If(t, z3.IntVal(1), z3.IntVal(0))


def isnum(o):
  return isinstance(o, (int, float, SymNum, SymBool)) or (hasattr(
      o, "dtype") and getattr(o, "shape", None) == ())


def _lift(a, b):
  a, b = z(a), z(b)
  if z3.is_bool(a):
    a = b2i(a)
  if z3.is_bool(b):
    b = b2i(b)
  if z3.is_int(a) and z3.is_real(b):
    a = z3.ToReal(a)
  if z3.is_real(a) and z3.is_int(b):
    b = z3.ToReal(b)
  return a, b


def _arith(op):

  def f(self, o):
    if not isnum(o):
      return NotImplemented
    a, b = _lift(self, o)
    return wrap(z3.simplify(op(a, b)))

  def r(self, o):
    if not isnum(o):
      return NotImplemented
    a, b = _lift(o, self)
    return wrap(z3.simplify(op(a, b)))

  return f, r


def _cmp(op):

  def f(self, o):
    if o is None:
      return NotImplemented
    if not isnum(o):
      return NotImplemented
    a, b = _lift(self, o)
    return wrap(z3.simplify(op(a, b)))

  return f


def floordiv(a, b):
  if z3.is_real(a) or z3.is_real(b):
    a, b = _lift(wrap(a), wrap(b))
    return z3.ToReal(z3.ToInt(a / b))
  # z3 div rounds so that the remainder is non-negative: floor for b > 0
  return z3.If(b > 0, a / b, z3.If(a % b == 0, a / b, -((a) / (-b)) - 1)) \
      if not (z3.is_int_value(b) and b.as_long() > 0) else a / b


def pymod(a, b):
  if z3.is_int_value(b) and b.as_long() > 0:
    return a % b
  return a - b * floordiv(a, b)


def _div(a, b):
  a = z3.ToReal(a) if z3.is_int(a) else a
  b = z3.ToReal(b) if z3.is_int(b) else b
  return a / b


class Root:
  """The floating-point k-th root of an integer.  Contract: when the integer is
  the k-th power of a known base, rounding gives the base, and rounding up gives
  the base or its successor (the float may lie just above)."""

  def __init__(self, n, k):
    self.n, self.k = n, k

  def base(self):
    if self.k == 1:
      return self.n
    from . import nf
    for p, k, d in getattr(nf.S(), "powers", []):
      if k == self.k and nf.dim_eq(p, self.n):
        return d
    raise Unsupported("root of an arbitrary number")

  def __round__(self, nd=None):
    return self.base()

  def __ceil__(self):
    d = self.base()
    return d + 1 if self.k > 1 and CTX.choose(2) else d


class SymNum(Sym):
  """Mathematical integer or real."""

  def __init__(self, t):
    self.t = t

  @property
  def is_int(self):
    return z3.is_int(self.t)

  __add__, __radd__ = _arith(lambda a, b: a + b)
  __sub__, __rsub__ = _arith(lambda a, b: a - b)
  __mul__, __rmul__ = _arith(lambda a, b: a * b)
  __lt__ = _cmp(lambda a, b: a < b)
  __le__ = _cmp(lambda a, b: a <= b)
  __gt__ = _cmp(lambda a, b: a > b)
  __ge__ = _cmp(lambda a, b: a >= b)

  def _nz(self, o):
    if wrap(z3.simplify(z(o) == 0)):
      raise ZeroDivisionError("division by zero")

  def __truediv__(self, o):
    if not isnum(o):
      return NotImplemented
    self._nz(o)
    return wrap(z3.simplify(_div(*_lift(self, o))))

  def __rtruediv__(self, o):
    if not isnum(o):
      return NotImplemented
    self._nz(self)
    return wrap(z3.simplify(_div(*_lift(o, self))))

  def __floordiv__(self, o):
    if not isnum(o):
      return NotImplemented
    self._nz(o)
    return wrap(z3.simplify(floordiv(*_lift(self, o))))

  def __rfloordiv__(self, o):
    if not isnum(o):
      return NotImplemented
    self._nz(self)
    return wrap(z3.simplify(floordiv(*_lift(o, self))))

  def __mod__(self, o):
    if not isnum(o):
      return NotImplemented
    self._nz(o)
    return wrap(z3.simplify(pymod(*_lift(self, o))))

  def __rmod__(self, o):
    if not isnum(o):
      return NotImplemented
    self._nz(self)
    return wrap(z3.simplify(pymod(*_lift(o, self))))

  def __pow__(self, o):
    if isinstance(o, int) and 0 <= o <= 6:
      r = z3.RealVal(1) if not self.is_int else z3.IntVal(1)
      for _ in range(o):
        r = r * self.t
      return wrap(z3.simplify(r))
    if isinstance(o, float) and 0 < o <= 1 and abs(1 / o - round(1 / o)) < 1e-9:
      return Root(self, round(1 / o))
    raise Unsupported("power")

  def __xor__(self, o):
    """exclusive or of two bits"""
    if not isnum(o):
      return NotImplemented
    a, b = _lift(self, o)
    bit = z3.And(a >= 0, a <= 1, b >= 0, b <= 1)
    if not z3.is_int(a) or CTX.feasible(z3.Not(bit)) != z3.unsat:
      raise Unsupported("exclusive or of symbolic numbers beyond 0 and 1")
    return wrap(z3.simplify((a + b) % 2))

  __rxor__ = __xor__

  def __neg__(self):
    return wrap(z3.simplify(-self.t))

  def __pos__(self):
    return self

  def __abs__(self):
    return wrap(z3.simplify(z3.If(self.t >= 0, self.t, -self.t)))

  def __eq__(self, o):
    if o is None or not isnum(o):
      return False
    a, b = _lift(self, o)
    return wrap(z3.simplify(a == b))

  def __ne__(self, o):
    r = self.__eq__(o)
    return (not r) if isinstance(r, bool) else wrap(z3.Not(r.t))

  def __hash__(self):
    raise Unsupported("hash of a symbolic number")

  def __bool__(self):
    return CTX.branch(self.t != 0)

  def __index__(self):
    v = concretize(self)
    if v is None:
      raise Unsupported("symbolic integer used as a native index")
    return v

  def __int__(self):
    return self.__index__()

  def __float__(self):
    raise Unsupported("float() of a symbolic number")

  def conj(self):
    return self

  @property
  def shape(self):
    return ()

  def __format__(self, spec):
    return f"<{self.t}>"

  def __repr__(self):
    return f"<{str(self.t)[:60]}>"


def concretize(x):
  """The only value x can take on this path, or None."""
  if isinstance(x, int):
    return x
  t = z3.simplify(z(x))
  if z3.is_int_value(t):
    return t.as_long()
  s = CTX.solver
  if s.check() != z3.sat:
    return None
  v = s.model().eval(t, model_completion=True)
  if not z3.is_int_value(v):
    return None
  if CTX.feasible(t != v) == z3.unsat:
    return v.as_long()
  return None


def enumerate_int(x, lo, hi):
  """Case split: fork on the value of x within [lo, hi)."""
  if isinstance(x, int):
    return x
  k = CTX.decide([(str(v), z(x) == v) for v in range(lo, hi)])
  return lo + k


class SymVal(Sym):
  """Opaque value with equality only (names, dtypes, strings ...)."""

  def __init__(self, t, kind="val"):
    self.t, self.kind = t, kind

  def __eq__(self, o):
    if isinstance(o, SymVal) or isinstance(o, str) or o is None:
      return wrap(z3.simplify(self.t == z(o)))
    return False

  def __ne__(self, o):
    r = self.__eq__(o)
    return (not r) if isinstance(r, bool) else wrap(z3.Not(r.t))

  def __hash__(self):
    raise Unsupported("hash of a symbolic value")

  def __bool__(self):
    # only the empty string / None are falsy: kinds are declared truthy
    if self.kind == "optstr":
      return CTX.branch(self.t != NONE)
    return True

  def __format__(self, spec):
    return f"<{self.t}>"

  def __repr__(self):
    return f"<{self.kind} {str(self.t)[:60]}>"


def ite(c, a, b):
  """Merges two wrapped values under condition c."""
  c = z3.simplify(zbool(c))
  if z3.is_true(c):
    return a
  if z3.is_false(c):
    return b
  if a is b:
    return a
  if isinstance(a, (tuple,)) and isinstance(b, tuple) and len(a) == len(b):
    return tuple(ite(c, x, y) for x, y in zip(a, b))
  ar = getattr(a, "rewrap", None)
  br = getattr(b, "rewrap", None)
  if isinstance(a, (SymVal, str)) and isinstance(b, (SymVal, str)):
    return SymVal(z3.If(c, z(a), z(b)), getattr(a, "kind",
                                               getattr(b, "kind", "val")))
  if ar or br:
    return (ar or br)(z3.If(c, z(a), z(b)))
  if isnum(a) and isnum(b):
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
      return wrap(z3.simplify(z3.If(c, z(a), z(b))))
    x, y = _lift(a, b)
    return wrap(z3.simplify(z3.If(c, x, y)))
  if (a is None and isnum(b)) or (b is None and isnum(a)):
    return wrap(simp(z3.If(c, z(a), z(b))))
  raise Unsupported(f"merge of {type(a).__name__} and {type(b).__name__}")


def eq(a, b):
  """Logical equality of two wrapped values as a z3 formula."""
  if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
    if len(a) != len(b):
      return z3.BoolVal(False)
    return z3.And([eq(x, y) for x, y in zip(a, b)] or [z3.BoolVal(True)])
  if not isinstance(a, Sym) and not isinstance(b, Sym) and not isinstance(
      a, z3.ExprRef) and not isinstance(b, z3.ExprRef):
    return z3.BoolVal(bool(a == b))
  try:
    x, y = z(a), z(b)
  except Unsupported:
    return zbool(a == b)
  if z3.is_arith(x) and z3.is_arith(y):
    x, y = _lift(wrap(x), wrap(y))
  if x.sort() != y.sort():
    return z3.BoolVal(False)
  return x == y


def forall(lo, hi, body, pats=None):
  """for all lo <= k < hi: body(k).  Expanded when the bounds are concrete."""
  lo_, hi_ = simp(z(lo)), simp(z(hi))
  if z3.is_int_value(lo_) and z3.is_int_value(hi_) and hi_.as_long(
  ) - lo_.as_long() <= 64:
    return z3.And([
        zbool(body(z3.IntVal(k))) for k in range(lo_.as_long(), hi_.as_long())
    ] or [z3.BoolVal(True)])
  k = CTX.int("q")
  b = zbool(body(k))
  kw = {}
  if pats:
    kw["patterns"] = [p(k) for p in pats]
  return z3.ForAll([k], z3.Implies(z3.And(lo_ <= k, k < hi_), b), **kw)


def exists(lo, hi, body):
  lo_, hi_ = simp(z(lo)), simp(z(hi))
  if z3.is_int_value(lo_) and z3.is_int_value(hi_) and hi_.as_long(
  ) - lo_.as_long() <= 64:
    return z3.Or([
        zbool(body(z3.IntVal(k))) for k in range(lo_.as_long(), hi_.as_long())
    ] or [z3.BoolVal(False)])
  k = CTX.int("x")
  return z3.Exists([k], z3.And(lo_ <= k, k < hi_, zbool(body(k))))
