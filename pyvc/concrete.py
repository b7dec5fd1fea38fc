"""Replays a contract of the free algebra on the real, unmodified code with
numpy arrays: `python concrete.py MODULE CONTRACT PICKS`."""
import importlib, json, os, sys, zlib
import numpy as np


class Fail(Exception):
  pass


class CC:
  """The contract interface backed by numpy."""
  concrete = True
  bounded = True
  mode = "concrete"

  def __init__(self, picks, seed=0):
    self.picks, self.pos, self.seed = list(picks), 0, seed
    self.failures = []
    self.nd = 0
    self.notes = []

  def pick(self, n):
    if isinstance(n, (list, tuple)):
      return n[self.pick(len(n))]
    if self.pos < len(self.picks):
      k = self.picks[self.pos]
    else:
      k = 0
    self.pos += 1
    return k

  def flag(self, name=""):
    return self.pick(2) == 1

  def size(self, name, lo=0, hi=2):
    return lo + self.pick(hi - lo + 1)

  def all_set_orders(self):
    pass

  @property
  def thorough(self):
    return self.tier == "thorough"

  tier = "quick"

  def rng(self, name):
    return np.random.RandomState(zlib.crc32(f"{name}|{self.seed}".encode()))

  def dims(self, n):
    out = []
    for _ in range(n):
      out.append([2, 3, 4, 2, 3, 5][(self.nd + self.seed) % 6])
      self.nd += 1
    return out

  def backend(self):
    from tensornetwork.backends import backend_factory
    return backend_factory.get_backend("numpy")

  def tensor(self, name, dims):
    r = self.rng(name)
    return np.asarray(r.randn(*dims) + 1j * r.randn(*dims))

  def left_iso(self, name, dims, d):
    n = int(np.prod(dims))
    a = self.tensor(name, [n, d])
    if n < d:
      raise Fail("skip: no isometry of this shape")
    q, _ = np.linalg.qr(a)
    return q.reshape(list(dims) + [d])

  def right_iso(self, name, d, dims):
    q = self.left_iso(name, dims, d)
    return np.moveaxis(q, -1, 0)

  def einsum(self, ins, out, tensors):
    if not tensors:
      return np.ones(())
    m = {}
    f = lambda l: m.setdefault(l, len(m))
    args = []
    for t, x in zip(tensors, ins):
      args += [np.asarray(t), [f(l) for l in x]]
    return np.einsum(*args, [f(l) for l in out])

  def eye(self, d):
    return np.eye(d)

  def conj(self, t):
    return np.conj(t)

  def same_dim(self, a, b):
    return a == b

  def equal(self, a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-7, atol=1e-8)

  def same(self, name, got, want):
    if not self.equal(got, want):
      self.failures.append(f"{name}: shapes {np.shape(got)} {np.shape(want)}; "
                           f"got {str(np.asarray(got))[:300]} want "
                           f"{str(np.asarray(want))[:300]}")
      return False
    return True

  def fact(self, name, ok, detail=""):
    if not ok:
      self.failures.append(f"{name}: {detail}")
    return ok

  def prove(self, name, f):
    if isinstance(f, (bool, np.bool_)):
      return self.fact(name, f)
    return True

  def assume(self, f):
    pass

  def cover(self, label="end"):
    pass

  def patch(self, *a):
    pass

  def patch_obj(self, obj, attr, value):
    self.patched.append((obj, attr, obj.__dict__[attr]))
    setattr(obj, attr, value)

  def patch_attr(self, obj, attr, value):
    self.patched.append((obj, attr, None))
    setattr(obj, attr, value)

  def times(self, a, b):
    return a * b

  def plus(self, a, b):
    return a + b

  def minus(self, a, b):
    return a - b

  def finish(self):
    for m, a, v in reversed(self.patched):
      if v is None:
        m.__dict__.pop(a, None)
      else:
        setattr(m, a, v)
    self.patched = []

  def delta(self, rank, d):
    t = np.zeros((d,) * rank)
    t[(np.arange(d),) * rank] = 1
    return t

  def call(self, fn, *a, **k):
    from pyvc.contract import Outcome
    try:
      return Outcome("return", fn(*a, **k))
    except Exception as e:  # pylint: disable=broad-except
      return Outcome("raise", exc=e)

  def value(self, fn, *a, **k):
    o = self.call(fn, *a, **k)
    if o.ok:
      return o.value
    self.failures.append(f"raised {type(o.exc).__name__}: {o.exc}")
    raise Fail("raised")


def observed(e):
  """An exception of the contract's own code while it examines a result: the
  result has another form than the documented one.  Missing private names and
  module attributes only say that the implementation is organised differently."""
  text = str(e)
  if isinstance(e, AttributeError):
    return not (text.startswith(("module ", "type object")) or "'_" in text)
  if isinstance(e, TypeError) and ("argument" in text or text.startswith("_")):
    return False
  return isinstance(e, (TypeError, ValueError, LookupError, ArithmeticError,
                        AssertionError, np.linalg.LinAlgError))


class Wrap(CC):
  """choices beyond the recorded ones are drawn at random"""

  def pick(self, n):
    if isinstance(n, (list, tuple)):
      return n[self.pick(len(n))]
    if self.pos >= len(self.picks):
      self.picks.append(int(self.draw.randint(1 << 20)))
    k = self.picks[self.pos] = self.picks[self.pos] % n
    self.pos += 1
    return k


def sample(module, name, hints, n, seconds, tier="quick"):
  """The contract on concrete arrays for the hinted and for random choices."""
  import time
  t0, tried, errors = time.time(), 0, 0
  for i in range(n):
    if time.time() - t0 > seconds:
      break
    Wrap.draw = np.random.RandomState(i)
    picks = list(hints[i]) if i < len(hints) else []
    r = run(module, name, picks, 1, Wrap)
    tried += 1
    errors += "error" in r
    if r["reproduced"]:
      return dict(r, picks=picks, tried=tried, errors=errors)
  return dict(reproduced=False, tried=tried, errors=errors, runs=[])


def run(module, name, picks, seeds=3, cls=CC):
  import traceback
  from pyvc import contract
  importlib.import_module("contracts." + module)
  k = [x for x in contract.CONTRACTS if x.name == name][0]
  out = []
  for seed in range(seeds):
    c = cls(picks, seed)
    c.picks = picks if cls is Wrap else c.picks
    c.patched = []
    try:
      k.fn(c)
    except Fail as e:
      if str(e).startswith("skip"):
        continue
    except Exception as e:  # pylint: disable=broad-except
      tb = traceback.extract_tb(e.__traceback__)
      repo = os.environ.get("VERIF_REPO", "/repo")
      if any(f.filename.startswith(repo) for f in tb[-2:]):
        c.failures.append(f"raised {type(e).__name__}: {e}")
      elif observed(e):
        c.failures.append("the result cannot be used as documented: "
                          f"{type(e).__name__}: {e}")
      elif not c.failures:
        return dict(reproduced=False, error="".join(
            traceback.format_exception(e)[-4:])[-800:])
    finally:
      c.finish()
    if c.failures:
      out.append(dict(seed=seed, failures=c.failures[:4], notes=c.notes[:20]))
  return dict(reproduced=bool(out), runs=out)


if __name__ == "__main__":
  here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
  sys.path[0:1] = [os.environ.get("VERIF_REPO", "/repo"), here]
  sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
  if len(sys.argv) > 4:
    res = sample(sys.argv[1], sys.argv[2], json.loads(sys.argv[3]),
                 int(sys.argv[4]), float(sys.argv[5]))
  else:
    res = run(sys.argv[1], sys.argv[2], json.loads(sys.argv[3]))
  print("\n" + json.dumps(res))
