"""Executable contracts: P10 (MPS), P11 (measurements), P12 (MPO and DMRG)."""
import io, contextlib, itertools
import numpy as np
import tensornetwork as tn
from tensornetwork.matrixproductstates.base_mps import BaseMPS
from tensornetwork.matrixproductstates.finite_mps import FiniteMPS
from tensornetwork.matrixproductstates.infinite_mps import InfiniteMPS
from tensornetwork.matrixproductstates.mpo import (FiniteMPO, FiniteXXZ,
                                                   FiniteTFI,
                                                   FiniteFreeFermion2D,
                                                   InfiniteMPO)
from tensornetwork.matrixproductstates.dmrg import FiniteDMRG, BaseDMRG
from bounded.core import (scenario, require, same, raises, Violation, Skip,
                          tonp, backends_for)


def dense(tensors):
  """(left boundary, physical.., right boundary)"""
  r = np.array(tonp(tensors[0]))
  for t in tensors[1:]:
    r = np.tensordot(r, tonp(t), 1)
  return r


def draw(rng, n=None, boundary=True, lo=1):
  n = rng.int(1, 5) if n is None else n
  d = [rng.int(lo, 3) for _ in range(n)]
  D = [rng.int(1, 3) if boundary and rng.bool(0.3) else 1] + [
      rng.int(1, 4) for _ in range(n - 1)] + [
          rng.int(1, 3) if boundary and rng.bool(0.3) else 1]
  dt = rng.dtype()
  ts = [rng.array((D[k], d[k], D[k + 1]), dt) for k in range(n)]
  return n, d, D, dt, ts


def iso(t, left):
  t = tonp(t)
  m = t.reshape(-1, t.shape[2]) if left else t.reshape(t.shape[0], -1).T
  return np.abs(m.conj().T @ m - np.eye(m.shape[1])).max() < 1e-9


def canonical(m, center, what):
  require(m.center_position == center, f"{what}: center_position is "
          f"{m.center_position}, expected {center}")
  for k, t in enumerate(m.tensors):
    if k < center:
      require(iso(t, True), f"{what}: tensor {k} left of the centre {center} is "
              "not a left isometry")
    if k > center:
      require(iso(t, False), f"{what}: tensor {k} right of the centre {center} "
              "is not a right isometry")


def parallel(a, b, what):
  """a and b describe the same normalised state up to a positive factor"""
  require(a.shape == b.shape, f"{what}: shape {a.shape} instead of {b.shape}")
  na, nb = np.linalg.norm(a), np.linalg.norm(b)
  same(a / na, b / nb, what + ": state")


def deviation(ts, center):
  tot = 0
  for k, t in enumerate(ts):
    t = tonp(t)
    if k == center:
      continue
    m = t.reshape(-1, t.shape[2]) if k < center else \
        t.reshape(t.shape[0], -1).conj().T
    g = m.conj().T @ m - np.eye(m.shape[1])
    tot += np.linalg.norm(g)**2
  return np.sqrt(tot)


def _canonical_case(rng, be):
  n, d, D, dt, ts = draw(rng)
  keep = [t.copy() for t in ts]
  want = dense(ts)
  c = rng.choice([None] + list(range(n)))
  canon = rng.bool(0.75)
  rng.note(be, "n", n, "d", d, "D", D, "center", c, "canonicalize", canon)
  if not canon:
    if rng.bool(0.3) and c is not None:
      raises((ValueError,), lambda: FiniteMPS(ts, center_position=c,
                                              canonicalize=False, backend=be),
             "a centre without canonical form")
      return
    m = FiniteMPS(ts, canonicalize=False, backend=be)
    require(m.center_position is None, "an uncanonicalised state has no centre")
    same(dense(m.tensors), want, "constructor without canonicalisation")
    norm = rng.bool()
    z = m.canonicalize(normalize=norm)
    if norm:
      parallel(dense(m.tensors), want, "canonicalize")
    else:
      same(dense(m.tensors), want, "canonicalize(normalize=False)", 1e-7)
      same(tonp(z), np.linalg.norm(want), "canonicalize: returned norm", 1e-7)
    canonical(m, 0, "canonicalize")
  else:
    m = FiniteMPS(ts, center_position=c, backend=be)
    parallel(dense(m.tensors), want, "constructor")
    canonical(m, 0 if c is None else c, "constructor")
    require(abs(np.linalg.norm(dense(m.tensors)) - 1) < 1e-8,
            "constructor: the state is not normalised")
  m.check_canonical()
  for _ in range(rng.int(1, 4)):
    s = rng.int(0, n - 1)
    norm = rng.bool()
    before, was = dense(m.tensors), m.center_position
    rng.note("position", s, norm)
    z = m.position(s, normalize=norm)
    after = dense(m.tensors)
    if norm:
      parallel(after, before, "position")
      require(abs(np.linalg.norm(after) - 1) < 1e-8,
              "position: not normalised")
    else:
      same(after, before, "position(normalize=False)", 1e-7)
    if not norm or s == was or abs(s - was) == 1:
      same(tonp(z), np.linalg.norm(before), "position: returned norm", 1e-7)
    canonical(m, s, "position")
    same(np.abs(tonp(m.check_canonical())), 0.0, "check_canonical", 1e-7)
  if rng.bool(0.4):
    # canonicalize keeps the centre
    s = m.center_position
    before = dense(m.tensors)
    m.canonicalize()
    parallel(dense(m.tensors), before, "canonicalize again")
    canonical(m, s, "canonicalize again")
  if n > 1:
    # the canonical check measures the deviation
    k = rng.int(0, n - 1)
    t = tonp(m.tensors[k])
    m.tensors[k] = m.backend.convert_to_tensor(t * 1.5)
    same(tonp(m.check_canonical()), deviation(m.tensors, m.center_position),
         "check_canonical: deviation", 1e-7)
    same(tonp(BaseMPS.check_canonical(m)),
         deviation(m.tensors, m.center_position), "check_canonical", 1e-7)
    for w in ("l", "left", "r", "right"):
      a = np.asarray(tonp(m.tensors[k]))
      x = a.reshape(-1, a.shape[2]) if w[0] == "l" else \
          a.reshape(a.shape[0], -1).conj().T
      same(tonp(m.check_orthonormality(w, k)),
           np.linalg.norm(x.conj().T @ x - np.eye(x.shape[1])),
           f"check_orthonormality {w}", 1e-7)
  require(m.bond_dimensions == [m.tensors[0].shape[0]] +
          [t.shape[2] for t in m.tensors], "bond_dimensions")
  require([m.bond_dimension(k) for k in range(n + 1)] == m.bond_dimensions,
          "bond_dimension of every bond")
  require(m.physical_dimensions == d, "physical_dimensions")
  for x, y in zip(ts, keep):
    require(np.array_equal(x, y), "the caller's tensors were changed")


def _gate_case(rng, be):
  n, d, D, dt, ts = draw(rng, rng.int(1, 5), boundary=False)
  c = rng.int(0, n - 1)
  canon = rng.bool(0.7)
  m = (FiniteMPS(ts, center_position=c, backend=be) if canon else
       FiniteMPS(ts, canonicalize=False, backend=be))
  state = dense(m.tensors)[0, ..., 0]
  rng.note(be, "n", n, "d", d, "D", D, "center", c if canon else None)
  for _ in range(rng.int(1, 3)):
    if n == 1 or rng.bool(0.3):
      s = rng.int(0, n - 1)
      g = rng.array((d[s], d[s]), dt)
      rng.note("one-site", s)
      m.apply_one_site_gate(g, s)
      state = np.moveaxis(np.tensordot(g, state, [[1], [s]]), 0, s)
      same(dense(m.tensors)[0, ..., 0], state, "one-site gate", 1e-7)
      break
    s = rng.int(0, n - 2)
    dd = (d[s], d[s + 1])
    g = rng.array(dd + dd, dt)
    if rng.bool(0.4):  # unitary
      q, _ = np.linalg.qr(g.reshape(dd[0] * dd[1], -1))
      g = q.reshape(dd + dd)
    want = rng.choice([None, s, s + 1])
    full = np.moveaxis(np.tensordot(g, state, [[2, 3], [s, s + 1]]), [0, 1],
                       [s, s + 1])
    kw = {}
    at = m.center_position in (s, s + 1)
    mode = rng.choice(["no", "no", "max", "err", "rel", "max+err", "max+rel"])
    if "max" in mode:
      kw["max_singular_values"] = rng.int(1, 5)
    if "err" in mode or "rel" in mode:
      kw["max_truncation_err"] = float(rng.choice([0.01, 0.1, 0.4]))
      kw["relative"] = "rel" in mode
    rng.note("two-site", s, "center", m.center_position, "want", want, kw)
    was = m.center_position
    if mode != "no" and not at:
      raises((ValueError,), lambda: m.apply_two_site_gate(
          g, s, s + 1, center_position=want, **kw), "truncation away from the "
             "centre")
      same(dense(m.tensors)[0, ..., 0], state, "refused gate")
      continue
    tw = m.apply_two_site_gate(g, s, s + 1, center_position=want, **kw)
    got = dense(m.tensors)[0, ..., 0]
    if mode == "no":
      same(got, full, "two-site gate", 1e-7)
      same(np.linalg.norm(tonp(tw)), 0.0, "two-site gate: nothing discarded")
    else:
      err = np.linalg.norm(got - full)
      same(np.linalg.norm(tonp(tw)), err,
           "two-site gate: reported discarded weight", 1e-6)
      left = int(np.prod(d[:s + 1]))
      sv = np.linalg.svd(full.reshape(left, -1), compute_uv=False)
      keep = m.tensors[s].shape[2]
      opt = np.linalg.norm(sv[keep:])
      require(err <= opt + 1e-7 * max(1, sv[0]), "two-site gate: truncation is "
              "not the optimal one", err, opt)
      most = kw.get("max_singular_values", keep)
      require(keep <= most, "too many values kept")
      if "max_truncation_err" in kw:
        b = kw["max_truncation_err"] * (sv[0] if kw["relative"] else 1)
        require(err <= b + 1e-7 or keep in (1, kw.get("max_singular_values")),
                "error bound exceeded", err, b)
        if keep > 1:
          require(np.linalg.norm(sv[keep - 1:]) > b - 1e-7,
                  "more values kept than the bound needs")
      else:
        rank = int(np.sum(sv > 1e-9 * sv[0]))
        require(keep >= min(most, rank), "fewer values kept than allowed", keep,
                most)
    if at:
      canonical(m, s if want is None else want, "two-site gate")
    else:
      require(m.center_position is None, "gate away from the centre")
      if was is None and canon:
        pass
    state = got
  if rng.bool(0.5):
    m.canonicalize()
    parallel(dense(m.tensors)[0, ..., 0], state, "canonicalize after gates")


def _truncate_case(rng, be):
  n, d, D, dt, ts = draw(rng, rng.int(2, 5), boundary=False, lo=2)
  a = rng.choice([0, n - 1])
  b = n - 1 - a
  m = FiniteMPS(ts, center_position=a, backend=be)
  before = dense(m.tensors)
  kw = {}
  which = rng.choice(["D", "err", "both"])
  if which != "err":
    kw["D"] = rng.int(1, 4)
  if which != "D":
    kw["max_truncation_err"] = float(rng.choice([1e-12, 0.05, 0.3]))
  norm = rng.bool()
  rng.note(be, "n", n, "d", d, "D", D, "position", a, "->", b, kw, norm)
  m.position(b, normalize=norm, **kw)
  canonical(m, b, "truncating position")
  after = dense(m.tensors)
  if "D" in kw:
    require(max(m.bond_dimensions) <= kw["D"], "bond dimensions exceed D",
            m.bond_dimensions)
    bound = 0
    x = before[0, ..., 0]
    for k in range(1, n):
      sv = np.linalg.svd(x.reshape(int(np.prod(d[:k])), -1), compute_uv=False)
      bound += np.sum(sv[kw["D"]:]**2)
    bound = np.sqrt(bound)
  else:
    bound = 0
  if "max_truncation_err" in kw:
    bound = np.hypot(bound, kw["max_truncation_err"] * np.sqrt(n - 1))
    first = 1 if a == 0 else n - 1
    sv = np.linalg.svd(before[0, ..., 0].reshape(int(np.prod(d[:first])), -1),
                       compute_uv=False)
    tails = [np.linalg.norm(sv[k:]) for k in range(len(sv) + 1)]
    b0 = kw["max_truncation_err"] * sv[0]
    if all(abs(t - b0) > 1e-9 * sv[0] for t in tails) and b0 > 1e-6 * sv[0]:
      need = min(k for k, t in enumerate(tails) if t <= b0)
      got = m.bond_dimensions[first]
      # values left over by rounding may fill the bond of the tensor
      require(got == min(need, kw.get("D", need)), "truncating position: number "
              "of values kept at the first bond", got, need, kw)
  if norm:
    require(abs(np.linalg.norm(after) - 1) < 1e-8, "not normalised")
    after = after * np.vdot(after, before)
  err = np.linalg.norm(after - before)
  require(err <= bound + 1e-7, "truncating position loses more than the "
          "truncation allows", err, bound)


def _transfer_case(rng, be):
  n, d, D, dt, ts = draw(rng)
  m = FiniteMPS(ts, canonicalize=False, backend=be)
  s = rng.int(0, n - 1)
  a = ts[s]
  for way in ("l", "left", 1, "r", "right", -1):
    if way in ("l", "left", 1):
      x = rng.array((D[s], D[s]), dt)
      want = np.einsum("api,ab,bpj->ij", a, x, a.conj())
    else:
      x = rng.array((D[s + 1], D[s + 1]), dt)
      want = np.einsum("ipa,ab,jpb->ij", a, x, a.conj())
    same(m.apply_transfer_operator(s, way, m.backend.convert_to_tensor(x)),
         want, f"transfer operator {way}")
  raises((ValueError,), lambda: m.apply_transfer_operator(s, "x", x),
         "transfer operator: unknown direction")
  same(m.left_transfer_operator(m.tensors[s],
                                m.backend.convert_to_tensor(
                                    np.eye(D[s], dtype=dt)), m.tensors[s]),
       np.einsum("api,apj->ij", a, a), "left_transfer_operator")


def _random_case(rng, be):
  n = rng.int(1, 5)
  d = [rng.int(1, 3) for _ in range(n)]
  D = [rng.int(1, 4) for _ in range(n - 1)]
  m = FiniteMPS.random(d, D, dtype=np.float64, backend=be)
  canonical(m, 0, "random")
  require(m.physical_dimensions == d, "random: physical dimensions")
  require(abs(np.linalg.norm(dense(m.tensors)) - 1) < 1e-8,
          "random: not normalised")
  m2 = FiniteMPS.random(d, D, dtype=np.complex128, backend=be,
                        canonicalize=False)
  require(m2.bond_dimensions == [1] + D + [1], "random: bond dimensions")
  require(m2.dtype == m2.backend.convert_to_tensor(
      np.zeros(1, np.complex128)).dtype, "random: dtype")
  if n > 1:
    raises((ValueError,), lambda: FiniteMPS.random(d, D + [2],
                                                   dtype=np.float64),
           "random: wrong number of bonds")


def _measure(m, state, op, s):
  v = np.moveaxis(np.tensordot(op, state, [[1], [s]]), 0, s)
  return np.vdot(state, v)


def _measure_case(rng, be):
  n, d, D, dt, ts = draw(rng, rng.int(1, 5), boundary=False)
  c = rng.int(0, n - 1)
  m = FiniteMPS(ts, center_position=c, backend=be)
  kept = [tonp(t).copy() for t in m.tensors]
  state = dense(m.tensors)[0, ..., 0]
  sites = [rng.int(0, n - 1) for _ in range(rng.int(0, 6))]
  ops = [rng.array((d[s], d[s]), dt) for s in sites]
  rng.note(be, "n", n, "d", d, "D", D, "center", c, "sites", sites)
  cv = m.backend.convert_to_tensor
  got = m.measure_local_operator([cv(o) for o in ops], list(sites))
  require(len(got) == len(sites), "measure_local_operator: wrong length")
  for o, s, g in zip(ops, sites, got):
    same(tonp(g), np.asarray(_measure(m, state, o, s)),
         f"measure_local_operator at {s}", 1e-7)
  # two-body, n.b. operators act per site: need equal physical dimensions
  s1 = rng.int(0, n - 1)
  same_d = [k for k in range(n) if d[k] == d[s1]]
  sites2 = [rng.choice(same_d) for _ in range(rng.int(0, 6))]
  if sites2:
    o1, o2 = rng.array((d[s1], d[s1]), dt), rng.array((d[s1], d[s1]), dt)
    rng.note("two-body", s1, sites2)
    got = m.measure_two_body_correlator(cv(o1), cv(o2), s1, list(sites2))
    require(len(got) == len(sites2), "correlator: wrong length")
    for s, g in zip(sites2, got):
      if s == s1:
        w = _measure(m, state, o1 @ o2, s)
      else:
        v = np.moveaxis(np.tensordot(o2, state, [[1], [s]]), 0, s)
        v = np.moveaxis(np.tensordot(o1, v, [[1], [s1]]), 0, s1)
        w = np.vdot(state, v)
      same(tonp(g), np.asarray(w), f"correlator {s1},{s}", 1e-7)
  canonical(m, c, "after measuring")
  for a, b in zip(m.tensors, kept):
    require(np.array_equal(tonp(a), b), "measuring changed the state")


def _env_case(rng, be):
  n, d, D, dt, ts = draw(rng, rng.int(1, 5))
  canon = rng.bool(0.8)
  c = rng.int(0, n - 1)
  if canon:
    m = FiniteMPS(ts, center_position=c, backend=be)
  else:
    # no centre reported: everything is contracted from the far end
    m = FiniteMPS(ts, center_position=rng.choice([0, n - 1]), backend=be)
    c = m.center_position
  arr = [tonp(t) for t in m.tensors]
  left = {0: np.eye(arr[0].shape[0])}
  for k in range(n):
    left[k + 1] = np.einsum("ab,api,bpj->ij", left[k], arr[k], arr[k].conj())
  right = {n - 1: np.eye(arr[-1].shape[2])}
  for k in reversed(range(n)):
    right[k - 1] = np.einsum("ab,ipa,jpb->ij", right[k], arr[k], arr[k].conj())
  ls = [rng.int(0, n) for _ in range(rng.int(0, 5))]
  rs = [rng.int(-1, n - 1) for _ in range(rng.int(0, 5))]
  rng.note(be, "n", n, "d", d, "D", D, "center", c, "left", ls, "right", rs)
  if any(s >= n and c >= n for s in ls):
    raise Skip()
  if any(s == n and s <= c for s in ls):
    raise Skip()
  L = m.left_envs(list(ls))
  require(set(int(k) for k in L) == set(ls), "left_envs: sites", sorted(L))
  for s in set(ls):
    same(L[s], left[s], f"left_envs[{s}]", 1e-7)
  R = m.right_envs(list(rs))
  require(set(int(k) for k in R) == set(rs), "right_envs: sites", sorted(R))
  for s in set(rs):
    same(R[s], right[s], f"right_envs[{s}]", 1e-7)
  for s in (-1, n + 1):
    raises((ValueError,), lambda: m.left_envs([s]), f"left_envs at {s}")
  for s in (-2, n):
    raises((ValueError,), lambda: m.right_envs([s]), f"right_envs at {s}")
  for a, b in zip(m.tensors, arr):
    require(np.array_equal(tonp(a), b), "environments changed the state")


def _infinite_case(rng, be):
  n = rng.int(1, 3)
  D0 = rng.int(1, 3)
  D = [D0] + [rng.int(1, 3) for _ in range(n - 1)] + [D0]
  d = [rng.int(2, 3) for _ in range(n)]
  ts = [rng.array((D[k], d[k], D[k + 1]), np.float64) for k in range(n)]
  m = InfiniteMPS(ts, center_position=0, backend=be)
  x = rng.array((D0, D0), np.float64)
  want = x
  for t in ts:
    want = np.einsum("api,ab,bpj->ij", t, want, t)
  rng.note(be, "n", n, "d", d, "D", D)
  cv = m.backend.convert_to_tensor
  for way in ("l", "left", 1):
    same(m.unit_cell_transfer_operator(way, cv(x)), want,
         "unit_cell_transfer_operator left")
  want = x
  for t in ts[::-1]:
    want = np.einsum("ipa,ab,jpb->ij", t, want, t)
  for way in ("r", "right", -1):
    same(m.unit_cell_transfer_operator(way, cv(x)), want,
         "unit_cell_transfer_operator right")


def _dominant(ts):
  """(eigenvalue, left, right) of the transfer matrix of the unit cell, as
  matrices over (ket, bra); None if it is not well separated"""
  E = None
  for t in ts:
    M = np.einsum("api,bpj->abij", t, t.conj()).reshape(
        t.shape[0]**2, t.shape[2]**2)
    E = M if E is None else E @ M
  w, v = np.linalg.eig(E)
  i = np.argmax(np.abs(w))
  w2, u = np.linalg.eig(E.T)
  ws = np.sort(np.abs(w))
  if len(ws) > 1 and ws[-2] > 0.9 * ws[-1]:
    raise Skip()
  D = ts[0].shape[0]
  l, r = u[:, np.argmax(np.abs(w2))].reshape(D, D), v[:, i].reshape(D, D)
  l, r = l / np.trace(l), r / np.trace(r)
  if min(np.linalg.eigvalsh((x + x.conj().T) / 2)[0] for x in (l, r)) < 1e-3:
    raise Skip()
  return w[i].real, l, r


def _inf_canonical(rng):
  """The canonical form of an infinite MPS describes the same state: the
  transfer matrix with one site operator gives the same expectation values;
  the tensors are left isometries and the connector holds the inverse Schmidt
  values.  Eigenvectors of the transfer matrix are defined up to a phase."""
  n = rng.int(1, 3)
  D0 = rng.int(1, 3)
  D = [D0] + [rng.int(1, 3) for _ in range(n - 1)] + [D0]
  d = [rng.int(2, 3) for _ in range(n)]
  for k in range(n):
    if D[k + 1] > D[k] * d[k] or D[k] > D[k + 1] * d[k]:
      raise Skip()
  dt = rng.choice([np.float64, np.complex128])
  ts = [rng.array((D[k], d[k], D[k + 1]), dt) for k in range(n)]
  start = rng.bool(0.4)
  first = rng.choice([None, 0, n - 1])
  rng.note("n", n, "d", d, "D", D, dt.__name__, "initial states", start,
           "centre", first)

  def expect(tt, s, op):
    w, l, r = _dominant(tt)
    F = l.reshape(-1)
    for k, t in enumerate(tt):
      x = np.einsum("qp,bqj->bpj", op, t.conj()) if k == s else t.conj()
      F = np.einsum("ab,api,bpj->ij", F.reshape(t.shape[0], -1), t, x).ravel()
    return (F @ r.ravel()) / (l.ravel() @ r.ravel()) / w

  s = rng.int(0, n - 1)
  op = rng.array((d[s], d[s]), dt)
  want = expect(ts, s, op)
  m = InfiniteMPS([t.copy() for t in ts], center_position=first,
                  backend="numpy")
  kw = {}
  if start:
    kw = {k: rng.array((D0, D0), dt) for k in ("left_initial_state",
                                              "right_initial_state")}
  keep = {k: v.copy() for k, v in kw.items()}
  real = m.backend.eigs

  def eigs(*a, **k):
    e, v = real(*a, **k)
    f = rng.choice([1, -1] if dt is np.float64 else [1, -1, 1j])
    return e, [x * f for x in v]

  m.backend.eigs = eigs
  try:
    m.canonicalize(**kw)
  finally:
    del m.backend.eigs
  for k, v in keep.items():
    require(np.array_equal(v, kw[k]), f"{k} was changed")
  require(m.center_position == n - 1, "infinite canonicalize: centre")
  arr = [tonp(t) for t in m.tensors]
  for k in range(n - 1):
    require(iso(arr[k], True), "infinite canonicalize: not left isometric")
  # unit cell = tensors .. last @ connector
  last = tonp(m.get_tensor(n - 1))
  lam = np.linalg.inv(tonp(m.connector_matrix))
  same(last, np.tensordot(arr[-1], tonp(m.connector_matrix), 1),
       "infinite canonicalize: connector")
  same(np.asarray(np.linalg.norm(lam)), np.asarray(1.0),
       "infinite canonicalize: Schmidt values are not normalised", 1e-6)
  diag = np.diag(lam)
  require(np.allclose(lam, np.diag(diag)) and np.all(diag.real > 0) and
          np.all(np.diff(diag.real) <= 1e-9),
          "infinite canonicalize: Schmidt values")
  cell = arr[:-1] + [last]
  w, l, r = _dominant(cell)
  same(np.asarray(w), np.asarray(1.0), "infinite canonicalize: not normalised",
       1e-5)
  # left canonical: the left fixed point of the cell is the identity, the right
  # one is the squared Schmidt values
  same(l * len(l), np.eye(len(l)), "infinite canonicalize: left fixed point",
       1e-5)
  same(r, np.diag(diag**2), "infinite canonicalize: right fixed point", 1e-5)
  got = expect(cell, s, op)
  same(np.asarray(got), np.asarray(want), "infinite canonicalize: expectation "
       "value changed", 1e-5)
  # with a truncation: the largest Schmidt values are the ones kept
  lam = diag.real
  how = rng.choice(["D", "threshold", "both"])
  kw, most = {}, len(lam)
  if how != "threshold":
    kw["D"] = most = rng.int(1, 3)
  if how != "D":
    t = kw["truncation_threshold"] = float(rng.choice([0.05, 0.3, 0.7]))
    tails = [np.linalg.norm(lam[k:]) for k in range(len(lam) + 1)]
    if any(abs(x - t * lam[0]) < 1e-3 for x in tails):
      raise Skip()
    most = min(most, next(k for k, x in enumerate(tails) if x <= t * lam[0]))
  m = InfiniteMPS([t.copy() for t in ts], center_position=first,
                  backend="numpy")
  m.canonicalize(**kw)
  keep = lam[:most] / np.linalg.norm(lam[:most])
  rng.note("truncation", kw)
  same(np.linalg.inv(tonp(m.connector_matrix)), np.diag(keep),
       "infinite canonicalize: Schmidt values kept", 1e-4)
  require(tuple(m.tensors[0].shape)[0] == len(keep) and
          tuple(m.tensors[-1].shape)[2] == len(keep),
          "infinite canonicalize: bond dimension kept")


# --------------------------------------------------------------------- P12
def mpo_dense(ts):
  """sum over bonds: matrix (out.., in..) with out = axis 2, in = axis 3"""
  r = tonp(ts[0])[0]  # (w, o, i)
  dims = [r.shape[1]]
  r = r.transpose(1, 2, 0)  # o i w
  for t in ts[1:]:
    t = tonp(t)
    r = np.einsum("oiw,wvpq->opiqv", r, t)
    s = r.shape
    r = r.reshape(s[0] * s[1], s[2] * s[3], s[4])
  return r[:, :, 0]


def kron(*ops):
  r = np.eye(1)
  for o in ops:
    r = np.kron(r, o)
  return r


def at(n, ops, d=2):
  """ops: {site: matrix}"""
  return kron(*[ops.get(k, np.eye(d)) for k in range(n)])


def _mpo_case(rng, be):
  n = rng.int(2, 5)
  dt = rng.choice([np.float64, np.complex128])
  cplx = False
  draw_ = lambda k: rng.array((k,), dt) if cplx else rng.array((k,), np.float64)
  sz, sx = np.diag([-0.5, 0.5]), np.array([[0, .5], [.5, 0]])
  sy = np.array([[0, -.5j], [.5j, 0]])
  if rng.bool():
    J, K, B = draw_(n - 1), draw_(n - 1), draw_(n)
    rng.note(be, "XXZ", n, J, K, B)
    mpo = FiniteXXZ(J, K, B, dtype=dt, backend=be)
    H = sum(B[k] * at(n, {k: sz}) for k in range(n))
    for k in range(n - 1):
      H = H + J[k] * at(n, {k: sz, k + 1: sz}) + K[k] * (
          at(n, {k: sx, k + 1: sx}) + at(n, {k: sy, k + 1: sy}))
  else:
    J, B = draw_(n - 1), draw_(n)
    rng.note(be, "TFI", n, J, B)
    mpo = FiniteTFI(J, B, dtype=dt, backend=be)
    X, Z = np.array([[0., 1], [1, 0]]), np.diag([-1., 1])
    H = sum(B[k] * at(n, {k: Z}) for k in range(n))
    for k in range(n - 1):
      H = H + J[k] * at(n, {k: X, k + 1: X})
  got = mpo_dense(mpo.tensors)
  if np.isrealobj(got):
    H = H.real
  same(got, H, "MPO is not the documented Hamiltonian")
  require(len(mpo) == n and mpo.bond_dimensions[0] == 1 and
          mpo.bond_dimensions[-1] == 1, "MPO: boundary dimensions")
  require(mpo.bond_dimensions == [tonp(t).shape[0] for t in mpo.tensors] + [1],
          "MPO: bond dimensions")


def _fermion_case(rng, be):
  N1, N2 = rng.choice([(2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (2, 3), (3, 2),
                       (4, 1), (1, 4)])
  t1, t2, v = [float(x) for x in rng.array((3,))]
  rng.note(be, "free fermions", N1, N2, t1, t2, v)
  if N1 == 1:
    raise Skip()
  mpo = FiniteFreeFermion2D(t1, t2, v, N1, N2, dtype=np.float64, backend=be)
  n = N1 * N2
  c = np.array([[0., 1], [0, 0]])
  P = np.diag([1., -1])
  ann = [at(n, {**{j: P for j in range(k)}, k: c}) for k in range(n)]
  H = 0
  idx = lambda x, y: y * N1 + x
  for y in range(N2):
    for x in range(N1):
      i = idx(x, y)
      H = H + v * ann[i].T @ ann[i]
      for j, t in ((idx(x + 1, y) if x + 1 < N1 else None, t1),
                   (idx(x, y + 1) if y + 1 < N2 else None, t2)):
        if j is not None:
          H = H + t * (ann[i].T @ ann[j] + ann[j].T @ ann[i])
  same(mpo_dense(mpo.tensors), H, "free-fermion MPO is not the documented "
       "Hamiltonian")


def _random_mpo(rng, n, d, dt, hermitian):
  W = [1] + [rng.int(1, 3) for _ in range(n - 1)] + [1]
  ts = [rng.array((W[k], W[k + 1], d, d), dt) for k in range(n)]
  if hermitian:  # A + A^dagger as a direct sum of bonds
    out = []
    for k, t in enumerate(ts):
      b = t.transpose(0, 1, 3, 2).conj()
      l, r = t.shape[:2]
      x = np.zeros((2 * l if k else 1, 2 * r if k < n - 1 else 1, d, d), dt)
      if n == 1:
        x[:] = t + b
      elif k == 0:
        x[:, :r], x[:, r:] = t, b
      elif k == n - 1:
        x[:l], x[l:] = t, b
      else:
        x[:l, :r], x[l:, r:] = t, b
      out.append(x)
    ts = out
  return ts


def expectation(mps, mpo):
  v = dense(mps)[0, ..., 0].reshape(-1)
  return np.vdot(v, mpo_dense(mpo) @ v)


def _env_oracle(mps, mpo, n):
  A = [tonp(t) for t in mps]
  W = [tonp(t) for t in mpo]
  L = {0: np.ones((1, 1, 1))}
  for k in range(n):
    # axes: mpo bond, ket bond, bra bond
    L[k + 1] = np.einsum("wab,api,wvqp,bqj->vij", L[k], A[k], W[k],
                         A[k].conj())
  R = {n - 1: np.ones((1, 1, 1))}
  for k in reversed(range(n)):
    R[k - 1] = np.einsum("vij,api,wvqp,bqj->wab", R[k], A[k], W[k],
                         A[k].conj())
  return L, R


def _check_envs(dm, what):
  n = len(dm.mps)
  L, R = _env_oracle(dm.mps.tensors, dm.mpo.tensors, n)
  c = dm.mps.center_position
  for k in range(c + 1):
    require(k in dm.left_envs, f"{what}: left environment {k} is missing")
    same(dm.left_envs[k], L[k], f"{what}: left environment {k}", 1e-7)
  for k in range(c, n):
    require(k in dm.right_envs, f"{what}: right environment {k} is missing")
    same(dm.right_envs[k], R[k], f"{what}: right environment {k}", 1e-7)


def _dmrg_envs_case(rng, be):
  n = rng.int(1, 4)
  d = rng.int(2, 3)
  dt = rng.dtype()
  D = [1] + [rng.int(1, 3) for _ in range(n - 1)] + [1]
  ts = [rng.array((D[k], d, D[k + 1]), dt) for k in range(n)]
  c = rng.int(0, n - 1)
  mps = FiniteMPS(ts, center_position=c, backend=be)
  mpo = FiniteMPO(_random_mpo(rng, n, d, dt, False), backend=be)
  rng.note(be, "n", n, "d", d, "D", D, "center", c)
  dm = FiniteDMRG(mps, mpo)
  dm.compute_left_envs()
  dm.compute_right_envs()
  _check_envs(dm, "compute_envs")
  for _ in range(rng.int(0, 3)):
    s = rng.int(0, n - 1)
    before = dense(mps.tensors)
    rng.note("position", s)
    dm.position(s)
    canonical(mps, s, "DMRG position")
    same(dense(mps.tensors), before, "DMRG position", 1e-7)
    _check_envs(dm, "position")
    for k in dm.left_envs:
      require(k <= s, "a stale left environment is kept", k, s)
    for k in dm.right_envs:
      require(k >= s, "a stale right environment is kept", k, s)
  s = mps.center_position
  L, R = _env_oracle(mps.tensors, mpo.tensors, n)
  W = [tonp(t) for t in mpo.tensors]
  x = rng.array(tonp(mps.tensors[s]).shape, dt)
  cv = mps.backend.convert_to_tensor
  same(dm.single_site_matvec(cv(x), dm.left_envs[s], mpo.tensors[s],
                             dm.right_envs[s]),
       np.einsum("wab,api,wvqp,vij->bqj", L[s], x, W[s], R[s]),
       "single_site_matvec", 1e-7)
  if s < n - 1:
    y = rng.array((x.shape[0], d, d, tonp(mps.tensors[s + 1]).shape[2]), dt)
    same(dm.two_site_matvec(cv(y), dm.left_envs[s], mpo.tensors[s],
                            mpo.tensors[s + 1], cv(R[s + 1].astype(dt))),
         np.einsum("wab,aprc,wvqp,vuts,ucd,rs->bqtd", L[s], y, W[s], W[s + 1],
                   R[s + 1], np.eye(d)), "two_site_matvec", 1e-7)
  same(np.asarray(dm.compute_energy()), np.asarray(
      expectation(mps.tensors, mpo.tensors)), "compute_energy", 1e-7)


def _dmrg_case(rng, be):
  n = rng.int(2, 5)
  d = 2
  kind = rng.choice(["xxz", "tfi", "random"])
  dt = np.float64 if rng.bool(0.6) else np.complex128
  if kind == "xxz":
    mpo = FiniteXXZ(rng.array((n - 1,)), rng.array((n - 1,)), rng.array((n,)),
                    dtype=dt, backend=be)
  elif kind == "tfi":
    mpo = FiniteTFI(rng.array((n - 1,)), rng.array((n,)), dtype=dt, backend=be)
  else:
    mpo = FiniteMPO(_random_mpo(rng, n, d, dt, True), backend=be)
  full = [1] + [min(2**k, 2**(n - k)) for k in range(1, n)] + [1]
  trunc = rng.bool(0.3)
  D = full if not trunc else [1] + [min(2, x) for x in full[1:-1]] + [1]
  ts = [rng.array((D[k], d, D[k + 1]), dt) for k in range(n)]
  mps = FiniteMPS(ts, center_position=rng.int(0, n - 1), backend=be)
  H = mpo_dense(mpo.tensors)
  w = np.linalg.eigvalsh((H + H.conj().T) / 2)
  two = rng.bool()
  sweeps = rng.choice([0, 1, 2, 6, 12])
  rng.note(be, kind, "n", n, "D", D, "two-site" if two else "one-site",
           "sweeps", sweeps)
  dm = FiniteDMRG(mps, mpo)
  with contextlib.redirect_stdout(io.StringIO()):
    if two:
      top = 1 if trunc and rng.bool() else max(D)
      rng.note("max_bond_dim", top)
      e = dm.run_two_site(max_bond_dim=top, num_sweeps=sweeps,
                          num_krylov_vecs=20, precision=1e-12, tol=1e-12,
                          delta=1e-12, ndiag=1)
    else:
      e = dm.run_one_site(num_sweeps=sweeps, num_krylov_vecs=20,
                          precision=1e-12, tol=1e-12, delta=1e-12, ndiag=1)
  e = complex(tonp(e))
  canonical(mps, mps.center_position, "after DMRG")
  require(abs(np.linalg.norm(dense(mps.tensors)) - 1) < 1e-7,
          "DMRG: the state is not normalised",
          np.linalg.norm(dense(mps.tensors)))
  scale = max(1, abs(w).max())
  require(e.real >= w[0] - 1e-7 * scale, "DMRG energy below the ground energy",
          e, w[0])
  if not (two and trunc):
    require(abs(e - expectation(mps.tensors, mpo.tensors)) < 1e-6 * scale,
            "DMRG: the reported energy is not the expectation value", e,
            expectation(mps.tensors, mpo.tensors))
  if two:
    require(max(mps.bond_dimensions) <= (top if sweeps else max(D)),
            "DMRG: bond dimension limit")
  if not trunc and sweeps >= 6 and w[1] - w[0] > 0.05 * scale:
    require(abs(e.real - w[0]) < 1e-5 * scale, "DMRG on the full space did not "
            "reach the ground energy", e, w[0])
  _check_envs(dm, "after DMRG")


def _register():
  table = [("P10", _canonical_case, 60, 500), ("P10", _gate_case, 80, 700),
           ("P10", _truncate_case, 40, 300), ("P10", _transfer_case, 20, 100),
           ("P10", _random_case, 10, 60), ("P10", _infinite_case, 15, 80),
           ("P11", _measure_case, 80, 800), ("P11", _env_case, 60, 500),
           ("P12", _mpo_case, 25, 200), ("P12", _fermion_case, 10, 60),
           ("P12", _dmrg_envs_case, 40, 300)]
  for g in ("np", "jax", "tf"):
    be = backends_for(g)[0]
    for prop, fn, q, t in table:
      if g == "tf" and fn is _dmrg_envs_case:
        continue  # no Krylov solvers there, hence no DMRG
      if g != "np":
        q, t = max(6, q // 4), t // 4

      def f(rng, fn=fn, be=be):
        fn(rng, be)

      f.__name__ = fn.__name__.strip("_").replace("_case", "") + "_" + g
      scenario(prop, q, t, g)(f)

  def dmrg_np(rng):
    _dmrg_case(rng, "numpy")

  scenario("P12", 24, 200, "np")(dmrg_np)

  def inf_canonical_np(rng):
    _inf_canonical(rng)

  scenario("P10", 20, 150, "np")(inf_canonical_np)


_register()
