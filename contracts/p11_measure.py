"""P11: expectation values, correlators and environments of a finite matrix
product state equal those of the dense state vector."""
import itertools
import numpy as np
import tensornetwork as tn
from tensornetwork.matrixproductstates import base_mps, finite_mps
from pyvc.contract import contract
from contracts.p10_mps import State, make

B = "tensornetwork.matrixproductstates.base_mps:BaseMPS."
F = "tensornetwork.matrixproductstates.finite_mps:FiniteMPS."
NOTE = "all entries and dimensions (boundaries included); up to four sites"


def expectation(c, st, ops):
  """<psi| product of one-site operators |psi>; ops: [(site, tensor)], the
  first one applied last."""
  bra = [[f"B{k}", f"q{k}", f"B{k + 1}"] for k in range(st.n)]
  ket = st.legs()
  rows, ts = [], []
  top = [f"q{k}" for k in range(st.n)]
  cnt = 0
  for s, o in ops:
    cnt += 1
    rows.append([top[s], f"x{cnt}"])
    ts.append(o)
    top[s] = f"x{cnt}"
  ket = [[a, top[k], b] for k, (a, _, b) in enumerate(ket)]
  ket[0][0] = "B0"
  ket[-1][2] = f"B{st.n}"
  return c.einsum(bra + rows + ket, [],
                  [c.conj(t) for t in st.t] + ts + list(st.t))


def setup(c, top=4):
  n = c.pick(list(range(1, top + 1)))
  center = c.pick([None] + list(range(n)))
  st = State(c, n, center)
  return n, center, st, make(c, st, center)


def keeps(c, what, m, st, center):
  c.fact(f"{what}: measuring leaves the state alone",
         all(x is y for x, y in zip(m.tensors, st.t)) and
         len(m.tensors) == st.n and m.center_position == center)


def site_lists(c, n, top=2):
  """Every list of up to `top` sites, and some longer ones."""
  ls = [[]] + [list(x) for k in range(1, top + 1)
               for x in itertools.product(range(n), repeat=k)]
  ls += [list(range(n)), list(range(n))[::-1], [n - 1, 0, n - 1]]
  return c.pick(ls)


@contract("P11", [B + "measure_local_operator", F + "left_envs",
                  F + "right_envs"], modes=("bounded",), replay=True,
          note=NOTE + ", every centre, every list of up to two sites")
def local(c):
  n, center, st, m = setup(c, 4 if c.thorough else 3)
  sites = site_lists(c, n)
  ops = [c.tensor(f"o{i}", [st.d[s], st.d[s]]) for i, s in enumerate(sites)]
  got = c.value(m.measure_local_operator, ops, sites)
  c.fact("local operators: one value per requested site",
         len(got) == len(sites), str(len(got)))
  for g, o, s in zip(got, ops, sites):
    c.same("local operators: the expectation value of the dense state", g,
           expectation(c, st, [(s, o)]))
  keeps(c, "local operators", m, st, center)
  c.cover()


@contract("P11", [B + "measure_two_body_correlator", F + "left_envs",
                  F + "right_envs", B + "apply_transfer_operator"],
          modes=("bounded",), replay=True,
          note=NOTE + ", every centre, first site and list of up to two sites")
def two_body(c):
  n = c.pick([1, 2, 3, 4])
  center = c.pick([None] + list(range(n)))
  s1 = c.pick(n)
  if n < 4:
    sites = site_lists(c, n)
  else:
    sites = c.pick([[0, 1, 2, 3], [3, 1], [0, 2, 2, 0], [2, 3, 0]])
  # the operators act on several sites: the physical dimensions agree
  d = c.dims(1)[0]
  st = uniform(c, n, center, d)
  m = make(c, st, center)
  a, b = c.tensor("o1", [d, d]), c.tensor("o2", [d, d])
  got = c.value(m.measure_two_body_correlator, a, b, s1, sites)
  c.fact("correlator: one value per requested site", len(got) == len(sites),
         str(len(got)))
  for g, s in zip(got, sites):
    c.same("correlator: the correlation of the dense state, in the order of the "
           "requested sites", g, expectation(c, st, [(s1, a), (s, b)]))
  keeps(c, "correlator", m, st, center)
  c.cover()


def uniform(c, n, center, d):
  st = State.__new__(State)
  st.c, st.n = c, n
  st.d = [d] * n
  st.D = c.dims(n + 1)
  st.t = []
  for k in range(n):
    l, r = st.D[k], st.D[k + 1]
    if center is not None and k < center:
      st.t.append(c.left_iso(f"A{k}", [l, d], r))
    elif center is not None and k > center:
      st.t.append(c.right_iso(f"A{k}", l, [d, r]))
    else:
      st.t.append(c.tensor(f"A{k}", [l, d, r]))
  return st


@contract("P11", [F + "left_envs", F + "right_envs"], modes=("bounded",),
          replay=True, note=NOTE + ", every centre and list of up to two sites")
def environments(c):
  n, center, st, m = setup(c, 4 if c.thorough else 3)
  sites = site_lists(c, n)
  side = c.pick(["left", "right"])
  got = c.value(m.left_envs if side == "left" else m.right_envs, sites)
  c.fact("environments: one per requested site",
         sorted(int(k) for k in got) == sorted(set(sites)), str(list(got)))
  for s in set(sites):
    e = [v for k, v in got.items() if int(k) == s][0]
    if side == "left":
      ks = list(range(s))
      want = (c.einsum([["b0" if k == 0 else f"b{k}", f"p{k}", f"b{k + 1}"]
                        for k in ks] +
                       [["b0" if k == 0 else f"B{k}", f"p{k}", f"B{k + 1}"]
                        for k in ks], [f"b{s}", f"B{s}"],
                       [st.t[k] for k in ks] + [c.conj(st.t[k]) for k in ks])
              if ks else c.eye(st.D[0]))
    else:
      ks = list(range(s + 1, n))
      z = f"b{n}"
      bra = lambda k: z if k == n else f"B{k}"
      want = (c.einsum([[f"b{k}", f"p{k}", f"b{k + 1}"] for k in ks] +
                       [[f"B{k}", f"p{k}", bra(k + 1)] for k in ks],
                       [f"b{s + 1}", f"B{s + 1}"],
                       [st.t[k] for k in ks] + [c.conj(st.t[k]) for k in ks])
              if ks else c.eye(st.D[n]))
    c.same(f"{side} environments: contraction of the dense state", e, want)
  keeps(c, "environments", m, st, center)
  c.cover()


@contract("P11", [F + "left_envs", F + "right_envs",
                  B + "measure_local_operator",
                  B + "measure_two_body_correlator"], modes=("bounded",),
          replay=True, note="invalid sites and operator counts")
def refuses(c):
  st = State(c, 3, 1)
  m = make(c, st, 1)
  what = c.pick(["left", "left-", "right", "right-", "ops", "site1"])
  o = {"left": lambda: c.call(m.left_envs, [0, 4]),
       "left-": lambda: c.call(m.left_envs, [-1]),
       "right": lambda: c.call(m.right_envs, [0, 3]),
       "right-": lambda: c.call(m.right_envs, [-2]),
       "ops": lambda: c.call(m.measure_local_operator, [], [1]),
       "site1": lambda: c.call(m.measure_two_body_correlator, None, None, -1,
                               [0])}[what]()
  c.fact("invalid sites are refused",
         not o.ok and isinstance(o.exc, ValueError), repr(o.exc))
  c.cover()
