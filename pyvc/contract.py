"""Contracts and their exploration."""
import sys, time, traceback
import z3
from . import core, rt, instr
from .core import *
from .data import *

CONTRACTS = []


class Contract:

  def __init__(self, fn, prop, targets, modes, bound, internal, covers, trusted,
               tier, limit, note, replay):
    self.replay = replay
    self.fn, self.props = fn, prop if isinstance(prop, (list, tuple)) else [prop]
    self.name = fn.__name__
    self.targets, self.modes, self.bound = targets, modes, bound
    self.internal, self.covers, self.trusted = internal, covers, trusted
    self.tier, self.limit, self.note = tier, limit, note


def contract(prop, targets, modes=("unbounded", "bounded"), bound=2,
             internal=False, covers=("end",), trusted=(), tier="quick",
             limit=60, note="", replay=False):

  def deco(fn):
    CONTRACTS.append(
        Contract(fn, prop, targets, modes, bound, internal, covers, trusted,
                 tier, limit, note, replay))
    return fn

  return deco


class Outcome:

  def __init__(self, kind, value=None, exc=None):
    self.kind, self.value, self.exc = kind, value, exc

  @property
  def ok(self):
    return self.kind == "return"


class C:
  """Interface of a contract to the verifier."""

  def __init__(self):
    self.patched = []

  @property
  def mode(self):
    return CTX.mode

  @property
  def bounded(self):
    return CTX.mode == "bounded"

  def size(self, name, lo=0, hi=None):
    if CTX.mode == "bounded":
      hi = CTX.bound if hi is None else hi
      return lo + CTX.choose(hi - lo + 1)
    t = CTX.int(name)
    CTX.assume(t >= lo)
    return wrap(t)

  concrete = False

  def pick(self, n):
    if isinstance(n, (list, tuple)):
      return n[self.pick(len(n))]
    k = CTX.choose(n) if n > 1 else 0
    CTX.picks.append(k)
    return k

  def env_pick(self, n):
    """a choice of the modelled environment: not part of a concrete replay"""
    if isinstance(n, (list, tuple)):
      return n[self.env_pick(len(n))]
    return CTX.choose(n) if n > 1 else 0

  def flag(self, name="flag"):
    return self.pick(2) == 1

  def all_set_orders(self):
    """Explore every iteration order of small sets from here on."""
    CTX.any_set_order = True

  @property
  def thorough(self):
    return getattr(CTX, "tier", "quick") == "thorough"

  # -- tensors (free algebra here, numpy arrays when replayed) -----------------
  def dims(self, n):
    from . import nf
    return [nf.new_dim(f"d{i}") for i in range(n)]

  def backend(self):
    from . import nf
    b = getattr(self, "_backend", None)
    if b is None:
      b = self._backend = nf.NFBackend()
      from tensornetwork.backends import backend_factory as bf
      bf._BACKENDS["free"] = nf.NFBackend
      bf._INSTANTIATED_BACKENDS["free"] = b
    return b

  def tensor(self, name, dims):
    from . import nf
    return nf.T.atom(name, list(dims))

  def left_iso(self, name, dims, d):
    """Isometry from the last leg: sum over `dims` of t t* = identity."""
    from . import nf
    nf.isometry(name, len(dims), list(dims), d, last=True)
    return nf.T.atom(name, list(dims) + [d])

  def right_iso(self, name, d, dims):
    from . import nf
    nf.isometry(name, len(dims), list(dims), d, last=False)
    return nf.T.atom(name, [d] + list(dims))

  def einsum(self, ins, out, tensors):
    from . import nf
    return nf.einsum([list(x) for x in ins], list(out), list(tensors))

  def eye(self, d):
    from . import nf
    return nf.T.eye(d)

  def delta(self, rank, d):
    """The copy tensor: one on the diagonal."""
    from . import nf
    w = nf.wire(d)
    return nf.T([(1, nf.Term([], [(w,)] * rank, set()))])

  def conj(self, t):
    return t.conj()

  def times(self, a, b):
    return a * b

  def plus(self, a, b):
    return a + b

  def minus(self, a, b):
    return a - b

  def same_dim(self, a, b):
    from . import nf
    return nf.dim_eq(a, b)

  def equal(self, a, b):
    from . import nf
    return nf.equal(a, b)

  def same(self, name, got, want):
    """Obligation: two tensors are equal for all entries and dimensions."""
    from . import nf
    if not isinstance(got, nf.T) or not isinstance(want, nf.T):
      raise Unsupported(f"{name}: not tensors ({type(got).__name__}, "
                        f"{type(want).__name__})")
    ok = nf.equal(got, want)
    return CTX.fact(name, ok, "" if ok else
                    f"got {nf.collect(got)} want {nf.collect(want)}")

  def int(self, name="i", lo=None, hi=None):
    t = CTX.int(name)
    if lo is not None:
      CTX.assume(t >= z(lo))
    if hi is not None:
      CTX.assume(t < z(hi))
    return wrap(t)

  def real(self, name="r"):
    return wrap(CTX.real(name))

  def str(self, name="s"):
    t = CTX.int(name)
    return SymVal(t, "str")

  def assume(self, f):
    CTX.assume(f)

  def prove(self, name, f):
    return CTX.prove(name, f)

  def fact(self, name, ok, detail=""):
    return CTX.fact(name, bool(ok), detail)

  def cover(self, label="end"):
    if CTX.solver.check() != z3.unsat:
      CTX.cover(label)

  def loop(self, lid, inv, havoc=None, fields=(), alloc=None):
    if CTX.mode != "bounded":
      rt.LOOPS[lid] = rt.LoopSpec(inv, havoc, fields, alloc=alloc)

  def patch(self, mod, attr, value):
    """Replace a global of an extracted module (callee contract)."""
    m = rt.MODULES[mod]
    old = getattr(m, attr)
    for other in list(rt.MODULES.values()):
      if other.__dict__.get(attr) is old:
        self.patched.append((other, attr, old))
        setattr(other, attr, value)

  def patch_obj(self, obj, attr, value):
    self.patched.append((obj, attr, obj.__dict__[attr]))
    setattr(obj, attr, value)

  def patch_attr(self, obj, attr, value):
    """Instance attribute hiding the class's one until the end of the path."""
    self.patched.append((obj, attr, None))
    setattr(obj, attr, value)

  def call(self, fn, *a, **k):
    """Runs the real function; returns how it ended."""
    try:
      return Outcome("return", fn(*a, **k))
    except (EndPath, Unsupported):
      raise
    except (NameError, SyntaxError, ImportError, RecursionError,
            NotImplementedError) as e:
      raise Unsupported(f"{type(e).__name__}: {e}") from e
    except Exception as e:  # pylint: disable=broad-except
      if not raised_in_repo(e):
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{f.name}:{f.lineno}" for f in tb[-5:])
        raise Unsupported(f"{type(e).__name__}: {e} at {where}") from e
      return Outcome("raise", exc=e)

  def value(self, fn, *a, **k):
    """Runs the real function and requires a normal return."""
    try:
      o = self.call(fn, *a, **k)
    except Unsupported as e:
      cause = e.__cause__
      if not CTX.replay or cause is None or isinstance(
          cause, (EndPath, Unsupported)):
        raise
      # an obligation that counts only if it fails on concrete arrays as well
      o = Outcome("raise", exc=cause)
    if o.ok:
      return o.value
    self.unexpected(o)

  def unexpected(self, o, name="does not raise"):
    e = o.exc
    tb = traceback.extract_tb(e.__traceback__)
    where = "; ".join(f"{f.name}:{f.lineno}" for f in tb[-4:])
    CTX.notes.append(f"{type(e).__name__}: {str(e)[:200]} at {where}")
    CTX.prove(name, z3.BoolVal(False))
    raise EndPath()

  def finish(self):
    for m, a, v in reversed(self.patched):
      if v is None:
        m.__dict__.pop(a, None)
      else:
        setattr(m, a, v)
    self.patched = []
    rt.LOOPS.clear()


def raised_in_repo(e):
  """True when the exception comes from a raise statement of the code under
  verification (or a definite index/key error of python data)."""
  tb = traceback.extract_tb(e.__traceback__)
  last = tb[-1]
  if last.filename.startswith(instr.REPO):
    line = open(last.filename).read().splitlines()
    src = line[last.lineno - 1].strip() if last.lineno <= len(line) else ""
    # multi-line raise statements report the line of the raise
    if src.startswith("raise") or src.startswith("assert"):
      return True
    return False
  if isinstance(e, (IndexError, KeyError, ValueError, ZeroDivisionError)) and \
      "/pyvc/" in last.filename and getattr(e, "definite", True):
    return True
  return False


def run_contract(k, mode, tier="quick", work=None, slice_s=1e9):
  """Explores the paths of the contract below the given decision prefixes."""
  CTX.reset_contract()
  CTX.mode = mode
  CTX.bound = k.bound + (1 if tier == "thorough" and mode == "bounded" and
                         k.bound < 3 else 0)
  CTX.timeout = 6000 if tier == "quick" else 30000
  limit = k.limit if tier == "quick" else 6 * k.limit
  CTX.deadline = time.time() + limit
  CTX.replay = k.replay
  CTX.tier = tier
  t0 = time.time()
  work = [list(x) for x in (work or [[]])]
  unsupported = None
  ended = 0
  hints = []
  while work:
    if time.time() - t0 > slice_s:
      break
    prefix = work.pop()
    CTX.reset_path(prefix)
    CTX.paths += 1
    c = C()
    before = len(CTX.obligations)
    try:
      k.fn(c)
      ended += 1
    except EndPath:
      pass
    except Unsupported as e:
      unsupported = f"{e} (path {CTX.decisions})"[:400]
      hints.append(list(CTX.picks))
    except RecursionError as e:
      unsupported = "recursion"
    except Exception as e:  # pylint: disable=broad-except
      if k.replay and any(f.filename.startswith(instr.REPO + "/")
                          for f in traceback.extract_tb(e.__traceback__)):
        # counts only if it fails on concrete arrays as well
        try:
          c.unexpected(Outcome("raise", exc=e))
        except EndPath:
          pass
      elif any(o.status != "proved" for o in CTX.obligations[before:]):
        pass  # the contract could not go on after a failed obligation
      else:
        unsupported = "contract error: " + "".join(
            traceback.format_exception(e)[-6:])[-1200:]
        hints.append(list(CTX.picks))
    finally:
      c.finish()
    if unsupported:
      break
    bad = sum(1 for o in CTX.obligations if o.status != "proved")
    if bad >= 3 or (bad >= 2 and mode == "unbounded"):
      break
    work += CTX.pending
    if CTX.paths > CTX.max_paths:
      unsupported = "too many paths"
      break
  obs = CTX.obligations
  return dict(
      name=k.name, mode=mode, unsupported=unsupported, left=work, hints=hints,
      bound=CTX.bound if mode == "bounded" else None,
      covered=sorted(CTX.covered), paths=CTX.paths, ended=ended,
      wall=round(time.time() - t0, 2), solver_time=round(CTX.solver_time, 2),
      used=sorted(CTX.used), trusted=sorted(CTX.trusted | set(k.trusted)),
      obligations=[
          dict(picks=o.picks, name=f"{k.name}: {o.name}", status=o.status,
               backend=o.backend, detail=o.detail, model=o.model,
               time=round(o.time, 3)) for o in obs
      ])
