"""P12: the provided matrix product operators expand to their documented
Hamiltonians.  The real constructors run on entries of a polynomial ring in the
couplings (dtype=object), so each identity holds for all couplings; chain
lengths and lattice shapes are enumerated."""
from fractions import Fraction
import numpy as np
from tensornetwork.matrixproductstates import mpo as mpo_mod
from pyvc.contract import contract
from contracts.poly import Poly

M_ = "tensornetwork.matrixproductstates.mpo:"


def couplings(c, name, k):
  if c.concrete:
    return c.rng(name).randn(k)
  a = np.empty(k, dtype=object)
  for i in range(k):
    a[i] = Poly.var(f"{name}{i}")
  return a


def add(d, key, v):
  x = d.get(key)
  x = v if x is None else x + v
  if isinstance(x, Poly) and not x:
    d.pop(key, None)
  else:
    d[key] = x


def expand(tensors):
  """{(out digits, in digits): entry}; contraction over the bonds."""
  cur = {((), (), 0): 1}
  for t in tensors:
    nz = {}
    for i, j, o, p in np.argwhere(np.vectorize(
        bool, otypes=[bool])(t)) if t.size else []:
      nz.setdefault(int(i), []).append((int(j), int(o), int(p), t[i, j, o, p]))
    new = {}
    for (a, b, w), x in cur.items():
      for j, o, p, y in nz.get(w, []):
        add(new, (a + (o,), b + (p,), j), x * y)
    cur = new
  return {(a, b): x for (a, b, w), x in cur.items()}


def term(n, ops, coeff, out):
  """Adds coeff * product of site matrices (dict of dicts) to out."""
  cur = {((), ()): coeff}
  eye = {(0, 0): 1, (1, 1): 1}
  for k in range(n):
    cur = {(a + (o,), b + (p,)): x * y for (a, b), x in cur.items()
           for (o, p), y in ops.get(k, eye).items()}
  for key, x in cur.items():
    add(out, key, x)


def agree(c, what, got, want):
  bad = []
  for key in set(got) | set(want):
    x, y = got.get(key, 0), want.get(key, 0)
    ok = (abs(x - y) < 1e-9) if c.concrete else Poly.of(x) == Poly.of(y)
    if not ok:
      bad.append((key, x, y))
  c.fact(what, not bad, f"{len(bad)} entries, e.g. {bad[:1]}")


H = Fraction(1, 2)
SZ = {(0, 0): -H, (1, 1): H}
SP, SM = {(1, 0): 1}, {(0, 1): 1}
X, Z = {(0, 1): 1, (1, 0): 1}, {(0, 0): -1, (1, 1): 1}


def dt(c):
  return np.float64 if c.concrete else object


def shape_ok(c, what, mpo, n):
  c.fact(f"{what}: one tensor per site, boundary bonds of dimension one",
         len(mpo) == n and mpo.bond_dimensions[0] == 1 and
         mpo.bond_dimensions[-1] == 1)
  for a, b in zip(mpo.tensors, mpo.tensors[1:]):
    c.fact(f"{what}: neighbouring bonds match", a.shape[1] == b.shape[0])


@contract("P12", [M_ + "FiniteXXZ.__init__", M_ + "FiniteMPO.__init__"],
          modes=("bounded",), replay=True,
          note="all couplings; two to six sites")
def xxz(c):
  n = c.pick([2, 3, 4, 5, 6])
  J, K, B = couplings(c, "Jz", n - 1), couplings(c, "Jxy", n - 1), \
      couplings(c, "B", n)
  mpo = c.value(mpo_mod.FiniteXXZ, J, K, B, dt(c), "numpy")
  want = {}
  h = 0.5 if c.concrete else H
  for k in range(n):
    term(n, {k: SZ}, B[k], want)
  for k in range(n - 1):
    term(n, {k: SZ, k + 1: SZ}, J[k], want)
    # Sx Sx + Sy Sy = (S+ S- + S- S+) / 2
    term(n, {k: SP, k + 1: SM}, K[k] * h, want)
    term(n, {k: SM, k + 1: SP}, K[k] * h, want)
  shape_ok(c, "XXZ", mpo, n)
  agree(c, "XXZ: expands to the documented Hamiltonian", expand(mpo.tensors),
        want)
  c.cover()


@contract("P12", [M_ + "FiniteTFI.__init__"], modes=("bounded",), replay=True,
          note="all couplings; two to six sites")
def tfi(c):
  n = c.pick([2, 3, 4, 5, 6])
  J, B = couplings(c, "J", n - 1), couplings(c, "B", n)
  mpo = c.value(mpo_mod.FiniteTFI, J, B, dt(c), "numpy")
  want = {}
  for k in range(n):
    term(n, {k: Z}, B[k], want)
  for k in range(n - 1):
    term(n, {k: X, k + 1: X}, J[k], want)
  shape_ok(c, "TFI", mpo, n)
  agree(c, "TFI: expands to the documented Hamiltonian", expand(mpo.tensors),
        want)
  c.cover()


@contract("P12", [M_ + "FiniteFreeFermion2D.__init__"], modes=("bounded",),
          replay=True, note="all amplitudes; lattices of height at least two "
          "with up to eight sites (nine thorough)")
def free_fermions(c):
  sizes = [(2, 1), (2, 2), (3, 1), (3, 2), (2, 3), (4, 1), (4, 2), (2, 4),
           (5, 1), (6, 1)] + ([(3, 3)] if c.thorough else [])
  N1, N2 = c.pick(sizes)
  n = N1 * N2
  t1, t2, v = (couplings(c, x, 1)[0] for x in ("t", "s", "v"))
  mpo = c.value(mpo_mod.FiniteFreeFermion2D, t1, t2, v, N1, N2, dt(c), "numpy")
  P = {(0, 0): 1, (1, 1): -1}
  A, C, N = {(0, 1): 1}, {(1, 0): 1}, {(1, 1): 1}
  want = {}
  site = lambda x, y: y * N1 + x
  for y in range(N2):
    for x in range(N1):
      i = site(x, y)
      term(n, {i: N}, v, want)
      hops = []
      if x + 1 < N1:
        hops.append((site(x + 1, y), t1))
      if y + 1 < N2:
        hops.append((site(x, y + 1), t2))
      for j, t in hops:
        # c_i^+ c_j + h.c. with the sign string on the sites between
        s = {k: P for k in range(i + 1, j)}
        term(n, {**s, i: C, j: A}, t, want)
        term(n, {**s, i: A, j: C}, t, want)
  shape_ok(c, "free fermions", mpo, n)
  agree(c, "free fermions: expands to the documented Hamiltonian",
        expand(mpo.tensors), want)
  c.cover()
