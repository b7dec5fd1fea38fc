"""P10: matrix product states keep the represented state and their canonical
form.  Decompositions enter through their contract (P05): product equal to the
input, isometric outer factors."""
import itertools
import tensornetwork as tn
from tensornetwork.matrixproductstates import base_mps, finite_mps
from pyvc.contract import contract
from contracts.netlib import prod

B = "tensornetwork.matrixproductstates.base_mps:BaseMPS."
F = "tensornetwork.matrixproductstates.finite_mps:FiniteMPS."
TRUST = ("qr, rq and svd return factors with the stated product and isometric "
         "outer factors (P05)",)


class State:
  """A chain of arbitrary tensors (bond and boundary dimensions arbitrary);
  with a centre, the tensors left of it are left isometries and the ones right
  of it right isometries."""

  def __init__(self, c, n, center=None, gauge=True):
    self.c, self.n = c, n
    self.d = c.dims(n)
    self.D = c.dims(n + 1)
    self.t = []
    for k in range(n):
      l, p, r = self.D[k], self.d[k], self.D[k + 1]
      if center is not None and gauge and k < center:
        self.t.append(c.left_iso(f"A{k}", [l, p], r))
      elif center is not None and gauge and k > center:
        self.t.append(c.right_iso(f"A{k}", l, [p, r]))
      else:
        self.t.append(c.tensor(f"A{k}", [l, p, r]))

  def legs(self, tag=""):
    return [[f"{tag}b{k}", f"{tag}p{k}", f"{tag}b{k + 1}"]
            for k in range(self.n)]


def dense(c, tensors):
  n = len(tensors)
  return c.einsum([[f"b{k}", f"p{k}", f"b{k + 1}"] for k in range(n)],
                  ["b0"] + [f"p{k}" for k in range(n)] + [f"b{n}"], tensors)


def make(c, st, center):
  """A FiniteMPS holding the state without touching it."""
  m = finite_mps.FiniteMPS(list(st.t), canonicalize=False, backend=c.backend())
  m.center_position = center
  return m


def spy_norm(c):
  """Records every norm the code divides by."""
  be, seen = c.backend(), []
  old = be.norm

  def norm(t):
    z = old(t)
    seen.append((t, z))
    return z

  c.patch_attr(be, "norm", norm)
  return seen


def canonical(c, what, m, center):
  for k, t in enumerate(m.tensors):
    if k < center:
      c.same(f"{what}: tensors left of the centre are left isometries",
             c.einsum([["a", "p", "i"], ["a", "p", "j"]], ["i", "j"],
                      [c.conj(t), t]), c.eye(t.shape[2]))
    elif k > center:
      c.same(f"{what}: tensors right of the centre are right isometries",
             c.einsum([["i", "p", "a"], ["j", "p", "a"]], ["i", "j"],
                      [c.conj(t), t]), c.eye(t.shape[0]))
  c.fact(f"{what}: the reported centre is the one asked for",
         m.center_position == center, str(m.center_position))


def scaled(c, what, m, before, zs):
  """dense(m) times the norms divided out is the state before."""
  got = dense(c, m.tensors)
  for _, z in zs:
    got = c.times(got, z)
  c.same(f"{what}: the represented state is kept up to the norms divided out",
         got, before)


@contract("P10", [B + "position", B + "bond_dimension"], modes=("bounded",),
          replay=True, trusted=TRUST,
          note="all entries and all dimensions; up to four sites (five "
          "thorough), every pair of centres")
def position(c):
  n = c.pick([1, 2, 3, 4] + ([5] if c.thorough else []))
  a = c.pick(n)
  b = c.pick(n)
  norm = c.flag("normalize")
  st = State(c, n, a)
  zs = spy_norm(c)
  m = make(c, st, a)
  before = dense(c, st.t)
  if b == a:
    bonds = [st.t[0].shape[0]] + [t.shape[2] for t in st.t]
    for k in range(n + 1):
      c.fact(f"bond_dimension({k})", c.value(m.bond_dimension, k) == bonds[k])
  z = c.value(m.position, b, normalize=norm)
  if zs:
    c.same("position: returns the norm of the centre", z, zs[-1][1])
  scaled(c, "position", m, before, zs if norm else [])
  canonical(c, "position", m, b)
  c.cover()


@contract("P10", [B + "position"], modes=("bounded",), replay=True,
          trusted=TRUST, note="all entries and dimensions; up to three sites; "
          "truncating moves keep the canonical form")
def position_truncating(c):
  n = c.pick([2, 3])
  a, b = c.pick([(0, n - 1), (n - 1, 0), (0, 1), (1, 0)])
  st = State(c, n, a)
  m = make(c, st, a)
  how = c.pick(["D", "err", "D and err"])
  kw = dict(D=c.dims(1)[0]) if how == "D" else dict(max_truncation_err=0.25)
  if how == "D and err":
    kw["D"] = 50
  norm = c.flag()
  c.value(m.position, b, normalize=norm, **kw)
  canonical(c, "truncating position", m, b)
  if not norm and abs(a - b) == 1:
    # one step: the two tensors hold what the stated truncation keeps
    lo = min(a, b)
    legs = [["a", "p", "k"], ["k", "q", "b"]]
    new = c.einsum(legs, ["a", "p", "q", "b"], m.tensors[lo:lo + 2])
    kept = st.t[a]
    if how != "D" or kw["D"] < st.D[lo + 1]:
      u, s, v, _ = c.backend().svd(kept, 2 if b > a else 1, kw.get("D"),
                                   kw.get("max_truncation_err"), True)
      kept = (c.einsum([["a", "p", "k"], ["k"], ["k", "b"]], ["a", "p", "b"],
                       [u, s, v]) if b > a else
              c.einsum([["a", "k"], ["k"], ["k", "p", "b"]], ["a", "p", "b"],
                       [u, s, v]))
    pair = [kept, st.t[b]] if b > a else [st.t[b], kept]
    c.same("truncating position: keeps what the truncation options ask for",
           new, c.einsum(legs, ["a", "p", "q", "b"], pair))
  c.cover()


@contract("P10", [F + "__init__", F + "canonicalize", B + "__init__"],
          modes=("bounded",), replay=True, trusted=TRUST,
          note="all entries and dimensions; up to four sites, every requested "
          "centre")
def canonicalize(c):
  n = c.pick([1, 2, 3, 4])
  how = c.pick(["init", "method", "unnormalized"])
  center = c.pick([None] + list(range(n)))
  st = State(c, n)
  before = dense(c, st.t)
  zs = spy_norm(c)
  if how == "init":
    m = c.value(finite_mps.FiniteMPS, list(st.t), center_position=center,
                backend=c.backend())
  else:
    m = make(c, st, center)
    z = c.value(m.canonicalize, normalize=how == "method")
    if zs:
      c.same("canonicalize: returns the norm of the centre", z, zs[-1][1])
  scaled(c, "canonicalize", m, before, [] if how == "unnormalized" else zs)
  canonical(c, "canonicalize", m, center or 0)
  c.cover()


@contract("P10", [B + "position"], modes=("bounded",), replay=True,
          note="out-of-range and undefined centres")
def position_refuses(c):
  st = State(c, 3, 1)
  m = make(c, st, 1)
  what = c.pick(["high", "low", "none", "err"])
  if what == "none":
    m.center_position = None
  site = {"high": 3, "low": -1, "none": 1, "err": 0}[what]
  kw = dict(max_truncation_err=1.5) if what == "err" else {}
  o = c.call(m.position, site, **kw)
  c.fact("position: invalid requests are refused",
         not o.ok and isinstance(o.exc, ValueError), repr(o.exc))
  c.fact("position: a refused request changes nothing",
         all(x is y for x, y in zip(m.tensors, st.t)))
  c.cover()


@contract("P10", [B + "apply_one_site_gate"], modes=("bounded",), replay=True,
          note="all entries and dimensions; up to three sites")
def one_site_gate(c):
  n = c.pick([1, 2, 3])
  s = c.pick(n)
  st = State(c, n)
  m = make(c, st, None)
  g = c.tensor("g", [st.d[s], st.d[s]])
  c.value(m.apply_one_site_gate, g, s)
  legs = st.legs() + [["q", f"p{s}"]]
  out = ["b0"] + [f"p{k}" if k != s else "q" for k in range(n)] + [f"b{n}"]
  c.same("one-site gate: acts as the gate on that site",
         dense(c, m.tensors), c.einsum(legs, out, st.t + [g]))
  c.cover()


@contract("P10", [B + "apply_two_site_gate"], modes=("bounded",), replay=True,
          trusted=TRUST, note="all entries and dimensions; up to four sites, "
          "every centre and requested centre, with and without truncation")
def two_site_gate(c):
  n = c.pick([2, 3, 4])
  s = c.pick(n - 1)
  center = c.pick([None] + list(range(n)))
  want = c.pick([None, s, s + 1])
  trunc = c.pick(["no", "max", "err", "rel", "max+rel"])
  st = State(c, n, center)
  m = make(c, st, center)
  d = [st.d[s], st.d[s + 1]]
  g = c.tensor("g", d + d)
  kw = {}
  if "max" in trunc:
    kw["max_singular_values"] = c.dims(1)[0] if trunc == "max" else 50
  if "err" in trunc or "rel" in trunc:
    kw.update(max_truncation_err=0.25, relative="rel" in trunc)
  svds = spy_svd(c)
  o = c.call(m.apply_two_site_gate, g, s, s + 1, center_position=want, **kw)
  if trunc != "no" and center not in (s, s + 1):
    c.fact("two-site gate: truncating away from the centre is refused",
           not o.ok and isinstance(o.exc, ValueError), repr(o.exc))
    return
  if not o.ok:
    c.unexpected(o)
  legs = st.legs() + [["q0", "q1", f"p{s}", f"p{s + 1}"]]
  out = ["b0"] + [{s: "q0", s + 1: "q1"}.get(k, f"p{k}") for k in range(n)] + [
      f"b{n}"]
  exact = c.einsum(legs, out, st.t + [g])
  if trunc == "no":
    c.same("two-site gate: acts as the gate on the two sites",
           dense(c, m.tensors), exact)
  else:
    (arg, u, sv, v, disc), = svds
    kept = c.einsum([["a", "p", "k"], ["k"], ["k", "q", "b"]],
                    ["a", "p", "q", "b"], [u, sv, v])
    new = c.einsum([["a", "p", "k"], ["k", "q", "b"]], ["a", "p", "q", "b"],
                   [m.tensors[s], m.tensors[s + 1]])
    c.same("two-site gate: the decomposed tensor is the gate on both sites", arg,
           c.einsum([["a", "x", "m"], ["m", "y", "b"], ["p", "q", "x", "y"]],
                    ["a", "p", "q", "b"], [st.t[s], st.t[s + 1], g]))
    c.same("two-site gate: what is kept is what the decomposition kept", new,
           kept)
    ref = c.backend().svd(arg, 2, kw.get("max_singular_values"),
                          kw.get("max_truncation_err"),
                          kw.get("relative", False))
    c.same("two-site gate: what is kept is what the truncation options ask for",
           new, c.einsum([["a", "p", "k"], ["k"], ["k", "q", "b"]],
                         ["a", "p", "q", "b"], list(ref[:3])))
    c.fact("two-site gate: the discarded values are reported",
           o.value is disc)
  for k in range(n):
    if k not in (s, s + 1):
      c.fact("two-site gate: other sites are untouched",
             m.tensors[k] is st.t[k])
  if center in (s, s + 1):
    canonical(c, "two-site gate", m, s if want is None else want)
  else:
    c.fact("two-site gate away from the centre: no centre is reported",
           m.center_position is None)
  c.cover()


def spy_svd(c):
  be, seen = c.backend(), []
  old = be.svd

  def svd(tensor, *a, **k):
    r = old(tensor, *a, **k)
    seen.append((tensor,) + tuple(r))
    return r

  c.patch_attr(be, "svd", svd)
  return seen


@contract("P10", [B + "apply_transfer_operator", B + "left_transfer_operator",
                  B + "right_transfer_operator"], modes=("bounded",),
          replay=True, note="all entries and dimensions")
def transfer(c):
  st = State(c, 2)
  m = make(c, st, None)
  s = c.pick(2)
  t = st.t[s]
  way = c.pick(["l", "left", 1, "r", "right", -1])
  if way in ("l", "left", 1):
    x = c.tensor("x", [st.D[s], st.D[s]])
    want = c.einsum([["a", "p", "i"], ["a", "b"], ["b", "p", "j"]], ["i", "j"],
                    [t, x, c.conj(t)])
  else:
    x = c.tensor("x", [st.D[s + 1], st.D[s + 1]])
    want = c.einsum([["i", "p", "a"], ["a", "b"], ["j", "p", "b"]], ["i", "j"],
                    [t, x, c.conj(t)])
  c.same("transfer operator: acts as the tensor and its conjugate",
         c.value(m.apply_transfer_operator, s, way, x), want)
  c.cover()


@contract("P10", [B + "check_orthonormality", B + "check_canonical",
                  F + "check_canonical", B + "get_tensor"],
          modes=("bounded",), replay=True,
          note="all entries and dimensions; up to three sites")
def check_canonical(c):
  n = c.pick([1, 2, 3])
  center = c.pick(n)
  gauge = c.flag("gauge")
  st = State(c, n, center, gauge)
  cls = c.pick([finite_mps.FiniteMPS, base_mps.BaseMPS])
  m = make(c, st, center)
  got = c.value(cls.check_canonical, m)
  be = c.backend()
  dev = []
  for k, t in enumerate(st.t):
    if k == center:
      continue
    x = (c.einsum([["a", "p", "i"], ["a", "p", "j"]], ["i", "j"],
                  [t, c.conj(t)]) if k < center else
         c.einsum([["i", "p", "a"], ["j", "p", "a"]], ["i", "j"],
                  [t, c.conj(t)]))
    y = c.minus(x, c.eye(t.shape[2] if k < center else t.shape[0]))
    dev.append(c.einsum([["i", "j"], ["i", "j"]], [], [y, c.conj(y)]))
  if n == 1:
    c.same("check_canonical: a single site has no deviation", got,
           c.times(c.einsum([], [], []), 0))
    return
  sq = [be.sqrt(d) for d in dev]
  tot = c.times(sq[0], sq[0])
  for x in sq[1:]:
    tot = c.plus(tot, c.times(x, x))
  c.same("check_canonical: the norm of the deviations from isometry", got,
         be.sqrt(tot))
  c.cover()
