"""Runtime contract evaluation on the real code (the bounded stand-in layer).

A *scenario* is an executable contract: it draws a small random input from a
generator seeded by (VERIF_SEED, scenario name, case index), runs the real code
in /repo through its public API and evaluates the contract's postcondition
against an independent oracle written here (plain numpy index sums, dense
linear algebra, explicit charge lists ...).  Every case is identified by
(scenario, index, seed) and is replayed exactly by `python3 /verif/replay.py`.
"""
import hashlib, os, sys, traceback, signal, warnings
import numpy as np

SCENARIOS = {}          # name -> Scenario
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
  """The real code broke the contract on this input."""


class Skip(Exception):
  """The drawn input is outside the contract's precondition."""


class KnownFinding(Exception):
  """The contract is broken in exactly the way listed in known_findings.txt."""

  def __init__(self, key, msg):
    super().__init__(msg)
    self.key = key


class Scenario:

  def __init__(self, fn, prop, quick, thorough, group):
    self.fn, self.prop, self.quick, self.thorough = fn, prop, quick, thorough
    self.group = group
    self.name = prop + "." + fn.__name__


def scenario(prop, quick=40, thorough=400, group="np"):
  """Registers an executable contract; quick/thorough = cases per tier."""

  def deco(fn):
    s = Scenario(fn, prop, quick, thorough, group)
    assert s.name not in SCENARIOS, s.name
    SCENARIOS[s.name] = s
    return fn

  return deco


class Rng:
  """Small-scope random source; every draw is reproducible from the case id."""

  def __init__(self, name, index, seed):
    h = hashlib.sha256(f"{name}|{index}|{seed}".encode()).digest()
    self.r = np.random.RandomState(int.from_bytes(h[:4], "little"))
    self.index = index
    self.log = []

  def note(self, *a):
    """Record a step of the case so the replay file shows the input."""
    self.log.append(" ".join(str(x) for x in a))

  def int(self, lo, hi):  # inclusive
    return int(self.r.randint(lo, hi + 1))

  def bool(self, p=0.5):
    return bool(self.r.rand() < p)

  def choice(self, seq):
    seq = list(seq)
    return seq[int(self.r.randint(len(seq)))]

  def perm(self, n):
    return [int(x) for x in self.r.permutation(n)]

  def shuffled(self, seq):
    seq = list(seq)
    return [seq[i] for i in self.perm(len(seq))]

  def subset(self, seq, k=None):
    seq = list(seq)
    if k is None:
      k = self.int(0, len(seq))
    return [seq[i] for i in self.perm(len(seq))[:k]]

  def shape(self, rank, lo=1, hi=4):
    return tuple(self.int(lo, hi) for _ in range(rank))

  def array(self, shape, dtype=np.float64):
    """Well separated generic values (no accidental symmetry)."""
    a = self.r.randn(*shape)
    if np.issubdtype(dtype, np.complexfloating):
      a = a + 1j * self.r.randn(*shape)
    return np.asarray(a, dtype=dtype).reshape(shape)

  def dtype(self, p_complex=0.4):
    return np.complex128 if self.bool(p_complex) else np.float64


def backends_for(group):
  return {"np": ["numpy"], "jax": ["jax"], "tf": ["tensorflow"]}[group]


def tonp(x):
  """Tensor of any dense backend -> numpy array."""
  if hasattr(x, "todense"):
    x = x.todense()
  if hasattr(x, "numpy") and not isinstance(x, np.ndarray):
    x = x.numpy()
  return np.asarray(x)


def tol(dtype):
  return 1e-4 if np.dtype(dtype) in (np.dtype("float32"),
                                     np.dtype("complex64")) else 1e-8


def require(cond, msg, *info):
  if not cond:
    raise Violation(msg + ("" if not info else " :: " +
                           " | ".join(_short(i) for i in info)))


def _short(x):
  s = repr(x)
  return s if len(s) < 300 else s[:300] + "..."


def same(a, b, msg, eps=None):
  """a (from the real code) must equal b (oracle) in shape and value."""
  try:
    a = tonp(a)
  except Exception as e:  # pylint: disable=broad-except
    raise Violation(f"{msg}: result is not an array: {e!r}") from e
  b = np.asarray(b)
  if a.dtype == object:
    raise Violation(f"{msg}: result is not numeric: {_short(a)}")
  require(a.shape == b.shape, f"{msg}: shape {a.shape} instead of {b.shape}")
  if eps is None:
    eps = max([tol(x.dtype) for x in (a, b) if x.dtype.kind in "fc"] + [1e-8])
  if a.size == 0:
    return
  scale = max(1.0, float(np.max(np.abs(b))))
  bad = ~(np.abs(a - b) <= eps * scale)
  if np.any(bad):
    raise Violation(f"{msg}: value differs from the specification at "
                    f"{tuple(int(i) for i in np.argwhere(bad)[0])}: got "
                    f"{a[tuple(np.argwhere(bad)[0])]} expected "
                    f"{b[tuple(np.argwhere(bad)[0])]}")


def raises(exc, fn, msg):
  """fn() must be refused with one of the exceptions exc."""
  try:
    fn()
  except exc:
    return
  except Exception as e:  # pylint: disable=broad-except
    raise Violation(f"{msg}: refused with {type(e).__name__} ({e}) instead of "
                    f"{exc}") from e
  raise Violation(f"{msg}: accepted an input it must refuse")


class CaseTimeout(BaseException):
  pass


def _alarm(*_):
  raise CaseTimeout()


def in_repo(tb):
  while tb is not None:
    if tb.tb_frame.f_code.co_filename.startswith(REPO + "/tensornetwork"):
      return True
    tb = tb.tb_next
  return False


def unusable(e):
  """An exception of the scenario's own code while it examines a result: the
  result has another form than the documented one.  Missing private names and
  module attributes only say that the implementation is organised differently."""
  text = str(e)
  if isinstance(e, AttributeError):
    return not (text.startswith(("module ", "type object")) or "'_" in text)
  if isinstance(e, TypeError) and ("argument" in text or text.startswith("_")):
    return False
  return isinstance(e, (TypeError, ValueError, LookupError, ArithmeticError,
                        np.linalg.LinAlgError))


def run_case(name, index, seed, limit=60):
  """-> dict(status=ok|skip|violation|known|timeout|harness, message=...)."""
  s = SCENARIOS[name]
  rng = Rng(name, index, seed)
  np.random.seed(int(rng.r.randint(2**31 - 1)))
  signal.signal(signal.SIGALRM, _alarm)
  signal.alarm(limit)
  out = dict(scenario=name, index=index, seed=seed, status="ok", message="")
  try:
    with warnings.catch_warnings():
      warnings.simplefilter("ignore")
      s.fn(rng)
  except Skip:
    out["status"] = "skip"
  except Violation as e:
    out.update(status="violation", message=str(e))
  except KnownFinding as e:
    out.update(status="known", message=str(e), key=e.key)
  except CaseTimeout:
    out.update(status="timeout", message=f"no answer within {limit} s")
  except Exception as e:  # pylint: disable=broad-except
    tb = traceback.format_exc()
    if in_repo(e.__traceback__):
      out.update(
          status="violation",
          message=f"the real code raised {type(e).__name__}: {e} on an input "
          "inside the contract's precondition",
          trace=tb)
    elif unusable(e):
      out.update(
          status="violation",
          message="the result cannot be used as documented: "
          f"{type(e).__name__}: {e}", trace=tb)
    else:
      out.update(status="harness", message=f"{type(e).__name__}: {e}", trace=tb)
  finally:
    signal.alarm(0)
  out["log"] = rng.log
  return out
