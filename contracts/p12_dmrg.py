"""P12: DMRG environments, effective Hamiltonians and sweeps; MPO expansions.

The Lanczos solver enters through its contract (P17): it returns an energy and
some vector of the shape of the initial one.  What DMRG must guarantee for any
such answer: the map handed to the solver is the effective Hamiltonian of the
current state, the state becomes that vector (normalised) at the centre and
nothing else changes, and every environment kept equals the contraction of
state, operator and conjugate state."""
import numpy as np
from tensornetwork.matrixproductstates import dmrg as dm_mod
from tensornetwork.matrixproductstates import mpo as mpo_mod
from pyvc.contract import contract
from contracts.p10_mps import State, make, dense, canonical

D_ = "tensornetwork.matrixproductstates.dmrg:BaseDMRG."
FD = "tensornetwork.matrixproductstates.dmrg:FiniteDMRG."
M_ = "tensornetwork.matrixproductstates.mpo:"
TRUST = ("qr, rq and svd return factors with the stated product and isometric "
         "outer factors (P05)",
         "eigsh_lanczos returns an energy and a vector of the shape of its "
         "initial state (P17)")


class Setup:

  def __init__(self, c, n, center, finite):
    self.c, self.n = c, n
    self.st = State(c, n, center)
    if finite:
      # boundary dimensions of the operator are one
      self.w = [1] + c.dims(n - 1) + [1]
    else:
      self.w = c.dims(n + 1)
    self.W = [c.tensor(f"W{k}", [self.w[k], self.w[k + 1], self.st.d[k],
                                 self.st.d[k]]) for k in range(n)]
    self.mps = make(c, self.st, center)
    be = c.backend()
    if finite:
      self.mpo = mpo_mod.FiniteMPO(list(self.W), backend=be)
      self.dm = dm_mod.FiniteDMRG(self.mps, self.mpo)
    else:
      self.mpo = mpo_mod.BaseMPO(list(self.W), backend=be)
      b0, bn = self.st.D[0], self.st.D[n]
      self.lb = c.tensor("lb", [self.w[0], b0, b0])
      self.rb = c.tensor("rb", [self.w[n], bn, bn])
      self.dm = dm_mod.BaseDMRG(self.mps, self.mpo, self.lb, self.rb, "x")

  def left(self, L, a, w):
    c = self.c
    return c.einsum([["w", "a", "b"], ["a", "p", "i"], ["w", "v", "q", "p"],
                     ["b", "q", "j"]], ["v", "i", "j"], [L, a, w, c.conj(a)])

  def right(self, R, a, w):
    c = self.c
    return c.einsum([["v", "i", "j"], ["a", "p", "i"], ["w", "v", "q", "p"],
                     ["b", "q", "j"]], ["w", "a", "b"], [R, a, w, c.conj(a)])

  def check_envs(self, what):
    c, dm, A = self.c, self.dm, self.mps.tensors
    center = self.mps.center_position
    L, R = self.lb, self.rb
    for k in range(center + 1):
      c.fact(f"{what}: left environments up to the centre exist",
             k in dm.left_envs, str(k))
      if k in dm.left_envs:
        c.same(f"{what}: left environments are those of the current state",
               dm.left_envs[k], L)
      L = self.left(L, A[k], self.W[k])
    for k in reversed(range(center, self.n)):
      c.fact(f"{what}: right environments from the centre exist",
             k in dm.right_envs, str(k))
      if k in dm.right_envs:
        c.same(f"{what}: right environments are those of the current state",
               dm.right_envs[k], R)
      R = self.right(R, A[k], self.W[k])

  def env(self, site, side):
    r = self.lb if side == "l" else self.rb
    ks = range(site) if side == "l" else reversed(range(site + 1, self.n))
    for k in ks:
      r = (self.left if side == "l" else self.right)(r, self.mps.tensors[k],
                                                      self.W[k])
    return r

  def heff1(self, s, x):
    return self.c.einsum(
        [["w", "a", "b"], ["a", "p", "i"], ["w", "v", "q", "p"],
         ["v", "i", "j"]], ["b", "q", "j"],
        [self.env(s, "l"), x, self.W[s], self.env(s, "r")])

  def heff2(self, s, x):
    return self.c.einsum(
        [["w", "a", "b"], ["a", "p", "r", "i"], ["w", "u", "q", "p"],
         ["u", "v", "t", "r"], ["v", "i", "j"]], ["b", "q", "t", "j"],
        [self.env(s, "l"), x, self.W[s], self.W[s + 1], self.env(s + 1, "r")])


def oracle(c, S, two):
  """Replaces the eigensolver by its contract and checks every call."""
  calls = []

  def eigsh_lanczos(A, args=None, initial_state=None, **kw):
    site = S.mps.center_position
    k = len(calls)
    y = c.tensor(f"probe{k}", list(initial_state.shape))
    got = A(y, *(args or []))
    if two:
      # the pair of sites being optimised: the one to the right or to the left
      s = site if S.dir[-1] == "r" else site - 1
      c.same("two-site optimisation: the map is the effective Hamiltonian of "
             "the current state", got, S.heff2(s, y))
      c.same("two-site optimisation: starts from the current state",
             initial_state,
             c.einsum([["a", "p", "i"], ["i", "q", "b"]], ["a", "p", "q", "b"],
                      [S.mps.tensors[s], S.mps.tensors[s + 1]]))
    else:
      c.same("one-site optimisation: the map is the effective Hamiltonian of "
             "the current state", got, S.heff1(site, y))
      c.same("one-site optimisation: starts from the current state",
             initial_state, S.mps.tensors[site])
    x = c.tensor(f"opt{k}", list(initial_state.shape))
    calls.append((x, site, [t for t in S.mps.tensors]))
    return [float(-k - 1)], [c.times(x, 1)]

  c.patch_attr(c.backend(), "eigsh_lanczos", eigsh_lanczos)
  return calls


@contract("P12", [D_ + "position", D_ + "compute_left_envs",
                  D_ + "compute_right_envs", D_ + "add_left_layer",
                  D_ + "add_right_layer", D_ + "__init__"],
          modes=("bounded",), replay=True, trusted=TRUST,
          note="all tensors, operators, boundaries and dimensions; up to four "
          "sites, every pair of centres")
def envs(c):
  n = c.pick([1, 2, 3, 4])
  a, b = c.pick(n), c.pick(n)
  zs = _norms(c)
  S = Setup(c, n, a, False)
  S.dm.compute_left_envs()
  S.dm.compute_right_envs()
  S.check_envs("compute_envs")
  before = dense(c, S.mps.tensors)
  r = c.value(S.dm.position, b)
  got = dense(c, S.mps.tensors)
  for z in zs:
    got = c.times(got, z)
  c.same("DMRG position: the state is kept up to its norm", got, before)
  c.fact("DMRG position: returns the simulation", r is S.dm)
  canonical(c, "DMRG position", S.mps, b)
  S.check_envs("position")
  if a != b:
    c.fact("position: no stale left environment is kept",
           all(k <= b for k in S.dm.left_envs), str(sorted(S.dm.left_envs)))
    c.fact("position: no stale right environment is kept",
           all(k >= b for k in S.dm.right_envs), str(sorted(S.dm.right_envs)))
  c.cover()


def _norms(c):
  be, seen = c.backend(), []
  old = be.norm

  def norm(t):
    z = old(t)
    seen.append(z)
    return z

  c.patch_attr(be, "norm", norm)
  return seen


@contract("P12", [D_ + "position"], modes=("bounded",), replay=True,
          note="invalid sites")
def position_refuses(c):
  S = Setup(c, 2, 0, False)
  site = c.pick([-1, 2])
  o = c.call(S.dm.position, site)
  c.fact("DMRG position: sites outside the chain are refused",
         not o.ok and isinstance(o.exc, IndexError), repr(o.exc))
  c.cover()


@contract("P12", [D_ + "single_site_matvec", D_ + "two_site_matvec",
                  D_ + "compute_energy"], modes=("bounded",), replay=True,
          trusted=TRUST,
          note="all tensors, operators, boundaries and dimensions; up to three "
          "sites")
def energy(c):
  n = c.pick([1, 2, 3])
  a = c.pick(n)
  S = Setup(c, n, a, False)
  got = c.value(S.dm.compute_energy)
  R = S.rb
  for k in reversed(range(n)):
    R = S.right(R, S.mps.tensors[k], S.W[k])
  want = c.einsum([["w", "a", "b"], ["w", "a", "b"]], [], [R, S.lb])
  if c.concrete:
    got = np.asarray(got)
  c.same("compute_energy: contraction of state, operator and conjugate", got,
         want)
  c.cover()


@contract("P12", [D_ + "_optimize_1s_local"], modes=("bounded",), replay=True,
          trusted=TRUST,
          note="all tensors, operators, boundaries and dimensions, any answer "
          "of the eigensolver; up to three sites")
def optimize_one_site(c):
  n = c.pick([2, 3])
  way = c.pick(["r", "right", "l", "left"])
  s = c.pick(n - 1) + (0 if way[0] == "r" else 1)
  S = Setup(c, n, s, False)
  S.dm.compute_left_envs()
  S.dm.compute_right_envs()
  calls = oracle(c, S, False)
  e = c.value(S.dm._optimize_1s_local, way)
  c.fact("one-site optimisation: one eigenproblem is solved", len(calls) == 1)
  c.fact("one-site optimisation: returns the energy found", e == -1.0, str(e))
  x, _, old = calls[0]
  ref = list(old)
  ref[s] = x
  z = c.backend().norm(x)
  c.same("one-site optimisation: the state is the normalised solution",
         c.times(dense(c, S.mps.tensors), z), dense(c, ref))
  canonical(c, "one-site optimisation", S.mps, s + (1 if way[0] == "r" else -1))
  S.check_envs("one-site optimisation")
  c.cover()


@contract("P12", [D_ + "_optimize_2s_local"], modes=("bounded",), replay=True,
          trusted=TRUST,
          note="all tensors, operators, boundaries and dimensions, any answer "
          "of the eigensolver; up to three sites, truncated")
def optimize_two_site(c):
  n = c.pick([2, 3])
  way = c.pick(["r", "right", "l", "left"])
  s = c.pick(n - 1) + (0 if way[0] == "r" else 1)
  S = Setup(c, n, s, False)
  S.dm.compute_left_envs()
  S.dm.compute_right_envs()
  S.dir = [way[0]]
  calls = oracle(c, S, True)
  svds = spy_svd(c)
  D = c.dims(1)[0]
  e = c.value(S.dm._optimize_2s_local, D, way)
  c.fact("two-site optimisation: one eigenproblem is solved", len(calls) == 1)
  c.fact("two-site optimisation: returns the energy found", e == -1.0, str(e))
  x, _, old = calls[0]
  l = s if way[0] == "r" else s - 1
  z = c.backend().norm(x)
  if c.fact("two-site optimisation: one decomposition", len(svds) == 1):
    arg, u, sv, v, _ = svds[0]
    c.same("two-site optimisation: the normalised solution is decomposed",
           c.times(arg, z), x)
    kept = c.einsum([["a", "p", "k"], ["k"], ["k", "q", "b"]],
                    ["a", "p", "q", "b"], [u, sv, v])
    pair = c.einsum([["a", "p", "k"], ["k", "q", "b"]], ["a", "p", "q", "b"],
                    [S.mps.tensors[l], S.mps.tensors[l + 1]])
    c.same("two-site optimisation: the pair of sites is what is kept, "
           "normalised", c.times(pair, c.backend().norm(sv)), kept)
  for k in range(n):
    if k not in (l, l + 1):
      c.fact("two-site optimisation: other sites are untouched",
             S.mps.tensors[k] is old[k])
  canonical(c, "two-site optimisation", S.mps,
            s + (1 if way[0] == "r" else -1))
  S.check_envs("two-site optimisation")
  c.cover()


def spy_svd(c):
  be, seen = c.backend(), []
  old = be.svd

  def svd(tensor, *a, **k):
    r = old(tensor, *a, **k)
    seen.append((tensor,) + tuple(r))
    return r

  c.patch_attr(be, "svd", svd)
  return seen


@contract("P12", [D_ + "run_one_site", D_ + "run_two_site"],
          modes=("bounded",), replay=True, trusted=TRUST,
          note="all tensors, operators and dimensions, any answers of the "
          "eigensolver; two or three sites, up to two sweeps")
def run(c):
  two = c.flag()
  n = c.pick([2, 3])
  sweeps = c.pick([1, 2])
  center = c.pick(n)
  S = Setup(c, n, center, False)
  S.dir = []
  dm = S.dm
  if two:
    old2 = dm._optimize_2s_local

    def spy(*a, **k):
      S.dir.append((k.get("sweep_dir") or a[1])[0])
      return old2(*a, **k)

    c.patch_attr(dm, "_optimize_2s_local", spy)
  calls = oracle(c, S, two)
  if two:
    D = c.dims(1)[0]
    e = c.value(dm.run_two_site, D, num_sweeps=sweeps)
  else:
    e = c.value(dm.run_one_site, num_sweeps=sweeps)
  c.fact("run: returns the energy of the last optimisation",
         e == -float(len(calls)), f"{e} after {len(calls)}")
  c.fact("run: every site is optimised in every sweep",
         len(calls) >= sweeps * 2 * (n - 1), str(len(calls)))
  canonical(c, "run", S.mps, 0)
  if not two:
    x, s, old = calls[-1]
    ref = list(old)
    ref[s] = x
    z = c.backend().norm(x)
    c.same("run: the state is the last normalised solution",
           c.times(dense(c, S.mps.tensors), z), dense(c, ref))
  S.check_envs("run")
  c.cover()


@contract("P12", [D_ + "run_one_site", D_ + "run_two_site"],
          modes=("bounded",), replay=True, trusted=TRUST,
          note="all tensors and dimensions, two sites, up to four sweeps, the "
          "energies of the sweeps enumerated over order patterns around the "
          "precision")
def convergence(c):
  """The run stops after the first sweep whose energy is within the precision
  of that of the sweep before, and otherwise after num_sweeps."""
  two = c.flag()
  n = 2
  S = Setup(c, n, c.pick(n), False)
  # precision given to the run and the energy after each sweep
  prec, es = c.pick([
      (1e-6, [-1.0, -1.0 - 1e-5, -1.0 - 1.05e-5, -2.0]),
      (1e-6, [-1.0, -1.0, -2.0, -3.0]),
      (1e-8, [-1.0, -1.0 - 1e-7, -1.0 - 2e-7, -1.0 - 3e-7]),
      (0.5, [-1.0, -1.4, -9.0, -9.0]),
      (0.5, [-1.0, -1.6, -1.0, -1.3]),
      (0.0, [-1.0, -1.0, -1.0, -1.0])])
  sweeps = c.pick([1, 3, 4])
  last = [None]
  done = [0]

  def eigsh_lanczos(A, args=None, initial_state=None, **kw):
    at = S.mps.center_position
    if last[0] == 1 and at == 0:
      done[0] += 1
    last[0] = at
    return [es[min(done[0], 3)]], [c.times(initial_state, 1)]

  c.patch_attr(c.backend(), "eigsh_lanczos", eigsh_lanczos)
  kw = dict(num_sweeps=sweeps, precision=prec)
  if two:
    e = c.value(S.dm.run_two_site, c.dims(1)[0], **kw)
  else:
    e = c.value(S.dm.run_one_site, **kw)
  stop = [k for k in range(1, sweeps) if abs(es[k] - es[k - 1]) < prec]
  want = stop[0] if stop else sweeps - 1
  c.fact("run: stops after the sweep that reached the precision, or the last "
         "one", done[0] == want, f"{done[0]} want {want}")
  c.fact("run: returns the energy of its last sweep", e == es[want],
         f"{e} want {es[want]}")
  c.cover()
