"""P16: contraction-order solvers, for all bond dimensions.  The real
pathsolvers.py and nconinterface.py run on symbolic logarithms of bond
dimensions; the number of tensors is enumerated, which bonds exist is decided by
the solver (an absent bond has dimension one)."""
import itertools
from fractions import Fraction
import numpy as np
import z3
from tensornetwork.contractors.custom_path_solvers import pathsolvers as ps
from tensornetwork.contractors.custom_path_solvers import nconinterface as ni
from pyvc.contract import contract
from pyvc import core
from contracts import loglib as L

S_ = "tensornetwork.contractors.custom_path_solvers.pathsolvers:"
N_ = "tensornetwork.contractors.custom_path_solvers.nconinterface:"
TRUSTED = ("numpy on object arrays; np.max/min/argmin/argsort by contract",
           "log10 of sizes and costs as exact reals (tolerances included), "
           "not floats",
           "bond dimensions: 1 or at least 2")
TWO = Fraction(30102, 100000)


# ----------------------------------------------------------------- both worlds
class W:

  def __init__(self, c):
    self.c = c
    self.sym = not c.concrete
    if self.sym:
      L.reset()
      c.patch_obj(ps, "np", L.Shim(c))
      c.patch_obj(ni, "np", L.Shim(c))

  def log(self, name, zero=True):
    """log10 of a bond dimension"""
    if not self.sym:
      r = self.c.rng(name)
      return float(np.log10(r.choice([1, 2, 2, 3, 4, 6, 10] if zero else
                                     [2, 2, 3, 4, 6, 10])))
    t = self.c.real(name).t
    n = t.decl().name()
    L.VARS[n] = t
    self.c.assume(z3.Or(t == 0, t >= z3.RealVal(str(TWO))) if zero else
                  t >= z3.RealVal(str(TWO)))
    return L.Lg({L.mono({n: Fraction(1)}): Fraction(1)})

  def adjacency(self, n, diag=True):
    zero = L.Lg({L.ONE: Fraction(1)}) if self.sym else 0.0
    a = np.empty((n, n), dtype=object)
    for i in range(n):
      for j in range(i + 1):
        a[i, j] = a[j, i] = (self.log(f"a{j}{i}") if i != j or diag else zero)
    return L.larr(a) if self.sym else a.astype(float)

  def cost(self, terms):
    """log10 of the sum of 10**t"""
    if not self.sym:
      if not terms:
        return -np.inf
      m = max(terms)
      return m + np.log10(sum(10**(t - m) for t in terms))
    if not terms:
      return -np.inf
    p = {}
    for t in terms:
      p = L.padd(p, L.Lg.of(t).p)
    return L.Lg(p)

  def same(self, name, got, want):
    if self.sym and isinstance(want, L.Lg) and not isinstance(got, L.Lg) and \
        list(want.p) == [L.ONE] == list(want.q):
      want = float(np.log10(float(want.p[L.ONE] / want.q[L.ONE])))
    if self.sym and isinstance(want, L.Lg):
      ok = L.same(got, want)
    else:
      ok = not isinstance(got, L.Lg) and (
          got == want or abs(float(got) - want) < 1e-5)
    return self.c.fact(name, ok, f"got {got} want {want}")

  def at_most(self, name, a, b):
    """obligation: a <= b"""
    if not self.sym:
      return self.c.fact(name, a <= b + 1e-5, f"{a} > {b}")
    if isinstance(b, float) and b == np.inf:
      return True
    ta, tb = L.term(a), L.term(b)
    L.monotone()
    return self.c.prove(name, ta <= tb + z3.RealVal("1/100000"))


def K(targets, internal=False, limit=300, wrappers=(), tier="quick"):

  def deco(fn):

    def repeat(c):
      if not c.concrete:
        return fn(c, W(c))
      picks, nd, seed = c.picks, c.nd, c.seed
      for s in range(25):
        c.pos, c.nd, c.seed = 0, nd, seed * 1000 + s
        try:
          fn(c, W(c))
        except Exception as e:  # pylint: disable=broad-except
          if not str(e).startswith("skip"):
            raise
        if c.failures:
          return None
      return None

    repeat.__name__ = fn.__name__
    repeat.__module__ = fn.__module__
    return contract("P16", targets, modes=("bounded",), replay=True,
                    internal=internal, limit=limit, trusted=TRUSTED,
                    tier=tier)(repeat)

  return deco


# ----------------------------------------------------------------------- oracle
def step_cost(adj, j, i):
  n = len(adj)
  t = adj[j][j] + adj[i][i] + adj[j][i]
  for k in range(n):
    if k not in (i, j):
      t = t + adj[j][k] + adj[i][k]
  return t


def merge(adj, j, i):
  """tensors j and i become one, in the place of j"""
  n = len(adj)
  new = [list(r) for r in adj]
  for k in range(n):
    if k not in (i, j):
      new[j][k] = new[k][j] = adj[j][k] + adj[i][k]
  new[j][j] = adj[j][j] + adj[i][i]
  keep = [k for k in range(n) if k != i]
  return [[new[a][b] for b in keep] for a in keep]


def terms_of(c, adj, orders, name):
  """The sequence is complete and valid; its step costs."""
  n = len(adj)
  orders = np.asarray(orders)
  if not c.fact(name + ": a complete sequence of pairs",
                orders.shape == (2, n - 1), str(orders)):
    return None
  out = []
  for j, i in orders.T:
    if not c.fact(name + ": pairs of remaining tensors",
                  0 <= j < len(adj) and 0 <= i < len(adj) and i != j,
                  str(orders)):
      return None
    # the merged tensor takes the place of the first of the pair
    out.append(step_cost(adj, j, i))
    adj = merge(adj, j, i)
  c.fact(name + ": one tensor is left", len(adj) == 1)
  return out


def intact(c, w, name, got, want):
  ok = got.shape == want.shape and all(
      (got[i] is want[i]) or (not w.sym and got[i] == want[i]) or
      (w.sym and L.same(got[i], want[i])) for i in np.ndindex(*got.shape))
  c.fact(name + ": argument unchanged", ok)


def run_greedy(c, w, fn, n):
  adj = w.adjacency(n)
  given = adj.copy()
  orders, cost = c.value(fn, given)
  intact(c, w, fn.__name__, given, adj)
  ts = terms_of(c, adj.tolist(), orders, fn.__name__)
  if ts is not None:
    w.same(fn.__name__ + ": the reported cost is that of the sequence", cost,
           w.cost(ts))
  c.cover()


@K([S_ + "greedy_cost_solve"])
def greedy_by_cost(c, w):
  run_greedy(c, w, ps.greedy_cost_solve, 1 + c.pick(4 if c.thorough else 3))


@K([S_ + "greedy_size_solve"])
def greedy_by_size(c, w):
  run_greedy(c, w, ps.greedy_size_solve, 1 + c.pick(4 if c.thorough else 3))


def sequences(adj):
  """All sequences the exhaustive solver is documented to search: outer
  products only when nothing else is possible.  Lists of step costs."""
  n = len(adj)
  if n == 1:
    yield []
    return
  pairs = [(j, i) for i in range(n) for j in range(i)]
  linked = [(j, i) for j, i in pairs if adj[j][i] > 0]
  for j, i in linked or pairs:
    for rest in sequences(merge(adj, j, i)):
      yield [step_cost(adj, j, i)] + rest


def some_sequence(w, log):
  """contract of the greedy solvers: a complete sequence and its cost, which
  may be any"""

  def solve(log_adj):
    n = log_adj.shape[0]
    orders = np.full([2, n - 1], -1, dtype=int)
    cost = w.log(f"greedy{len(log)}") if n > 1 else -np.inf
    log.append((orders, cost))
    return orders, cost

  return solve


@K([S_ + "full_solve_complete", S_ + "_full_solve_single", S_ + "_reduce_nets"])
def exhaustive(c, w):
  n = 1 + c.pick(3)
  branch = [None, 1, 2][c.pick(3)]
  greedy = []
  if w.sym:
    L.LAZY.append(1)
    solver = some_sequence(w, greedy)
    c.patch_obj(ps, "greedy_size_solve", solver)
    c.patch_obj(ps, "greedy_cost_solve", solver)
  adj = w.adjacency(n)
  given = adj.copy()
  orders, cost, optimal = c.value(ps.full_solve_complete, given,
                                  max_branch=branch)
  intact(c, w, "full_solve_complete", given, adj)
  rows = adj.tolist()
  mine = [g for o, g in greedy if o is orders]
  if mine:
    c.fact("a greedy sequence with its cost", L.same(cost, mine[0]))
  else:
    ts = terms_of(c, rows, orders, "full_solve_complete")
    if ts is not None:
      w.same("the reported cost is that of the sequence", cost, w.cost(ts))
  for _, g in greedy:
    w.at_most("not worse than a greedy sequence", cost, g)
  if n > 1 and (branch is None or optimal):
    for ts in sequences(rows):
      w.at_most("not worse than any sequence searched", cost, w.cost(ts))
  c.cover()


# ------------------------------------------------------------- ncon interface
class T:
  """a tensor: only its shape is looked at"""

  def __init__(self, shape):
    self.shape = tuple(shape)


class Dim:
  """a dimension given by its logarithm"""

  def __init__(self, lg):
    self.lg = lg

  def log10(self):
    return self.lg


def shapes():
  """(number of tensors, bonds of the pairs, open legs, traces)"""
  out = [(1, (), (1,), (0,)), (1, (), (0,), (1,)), (1, (), (2,), (1,))]
  for bonds in ((0,), (1,), (2,)):
    for opened in ((0, 0), (1, 0), (1, 1)):
      out.append((2, bonds, opened, (0, 0)))
  out.append((2, (1,), (0, 1), (1, 0)))
  out.append((2, (0,), (0, 1), (0, 1)))
  for bonds in itertools.product((0, 1), (0, 1, 2), (0, 1)):
    out.append((3, bonds, (0, 0, 0), (0, 0, 0)))
    if sum(bonds) > 1:
      out.append((3, bonds, (1, 0, 1), (0, 0, 0)))
  out.append((3, (1, 1, 1), (0, 1, 0), (0, 0, 1)))
  return out


SHAPES = shapes()


def network(c, w):
  """labels of the legs and the logarithms of their dimensions"""
  n, bonds, opened, traces = SHAPES[c.pick(len(SHAPES))]
  style = c.pick(3)
  legs = [[] for _ in range(n)]
  k = 0
  for (a, b), m in zip(itertools.combinations(range(n), 2), bonds):
    for _ in range(m):
      k += 1
      legs[a].append(k)
      legs[b].append(k)
  for a, m in enumerate(traces):
    for _ in range(m):
      k += 1
      legs[a] += [k, k]
  o = 0
  for a, m in enumerate(opened):
    for _ in range(m):
      o -= 1
      legs[a].append(o)
  if style == 1:      # other label names
    legs = [[k + 1 - l if l > 0 else l for l in x] for x in legs]
  elif style == 2:    # other places
    legs = [x[::-1] for x in legs]
  logs = {l: w.log(f"d{l}".replace("-", "o"))
          for l in sorted({l for x in legs for l in x})}
  if w.sym:
    tensors = [T(Dim(logs[l]) for l in x) for x in legs]
  else:
    tensors = [T(int(round(10**logs[l])) for l in x) for x in legs]
  return legs, logs, tensors, k


def table(w, legs, logs):
  """sizes of the bonds between tensors, of the open legs on the diagonal"""
  n = len(legs)
  zero = L.Lg({L.ONE: Fraction(1)}) if w.sym else 0.0
  a = [[zero] * n for _ in range(n)]
  for l, d in logs.items():
    where = [i for i in range(n) for x in legs[i] if x == l]
    if len(where) == 1:
      a[where[0]][where[0]] = a[where[0]][where[0]] + d
    elif where[0] != where[1]:
      i, j = where
      a[i][j] = a[j][i] = a[i][j] + d
  return a


@K([N_ + "ncon_to_adj"])
def adjacency_of_network(c, w):
  legs, logs, tensors, _ = network(c, w)
  given = [list(x) for x in legs]
  got = c.value(ni.ncon_to_adj, tensors, given)
  want = table(w, legs, logs)
  c.fact("labels unchanged", given == legs)
  n = len(legs)
  c.fact("one row for every tensor", got.shape == (n, n))
  for i, j in np.ndindex(n, n):
    w.same("log10 of the dimension of the common indices", got[i, j],
           want[i][j])
  c.cover()


@K([N_ + "ncon_cost_check"])
def cost_of_an_order(c, w):
  legs, logs, tensors, k = network(c, w)
  orders = list(itertools.permutations(range(1, k + 1)))
  p = c.pick(1 + len(orders))
  order = list(range(1, k + 1)) if p == 0 else list(orders[p - 1])
  given = [list(x) for x in legs]
  got = c.value(ni.ncon_cost_check, tensors, given,
                None if p == 0 else list(order))
  c.fact("labels unchanged", given == legs)
  cur = [frozenset(l for l in x if x.count(l) == 1) for x in legs]
  zero = L.Lg({L.ONE: Fraction(1)}) if w.sym else 0.0
  lg = lambda s: sum((logs[l] for l in sorted(s)), zero)
  ts = []
  while True:
    order = [l for l in order if sum(l in x for x in cur) == 2]
    if not order:
      break
    a, b = [x for x in range(len(cur)) if order[0] in cur[x]]
    ts.append(lg(cur[a] | cur[b]))
    cur = [x for i, x in enumerate(cur) if i not in (a, b)] + [cur[a] ^ cur[b]]
  # outer products last, the smallest first
  sizes = [lg(x) for x in cur]
  while len(sizes) > 1:
    for _ in range(2):
      m = 0
      for i in range(1, len(sizes)):
        if sizes[i] < sizes[m]:
          m = i
      sizes.append(sizes.pop(m))
    t = sizes.pop() + sizes.pop()
    ts.append(t)
    sizes.append(t)
  w.same("the reported cost is that of the order", got, w.cost(ts))
  c.cover()


def check_order(c, legs, order, name):
  internal = sorted({l for x in legs for l in x if l > 0})
  return c.fact(name + ": every internal label exactly once",
                sorted(int(x) for x in order) == internal, str(list(order)))


@K([N_ + "ord_to_ncon"])
def labels_of_a_sequence(c, w):
  legs, logs, tensors, k = network(c, w)
  seq, left = [], len(legs)
  while left > 1:
    js = [(j, i) for i in range(left) for j in range(left) if i != j]
    seq.append(js[c.pick(len(js))])
    left -= 1
  given = [list(x) for x in legs]
  orders = np.array(seq, dtype=int).reshape(len(seq), 2).T
  keep = orders.copy()
  order = c.value(ni.ord_to_ncon, given, orders)
  c.fact("arguments unchanged", given == legs and np.array_equal(keep, orders))
  check_order(c, legs, order, "ord_to_ncon")
  cur = [[l for l in x if x.count(l) == 1] for x in legs]
  stage = {l: 0 for x in legs for l in x if x.count(l) == 2}
  for at, (j, i) in enumerate(seq):
    for l in set(cur[j]) & set(cur[i]):
      stage[l] = at + 1
    cur[j] = [l for l in cur[j] + cur[i] if (l in cur[j]) != (l in cur[i])]
    del cur[i]
  ranks = [stage.get(int(l), -1) for l in order]
  c.fact("labels in the order of the sequence", ranks == sorted(ranks),
         f"{list(order)} {seq}")
  c.cover()


@K([N_ + "ncon_solver"])
def solver_of_network(c, w):
  """ncon_solver against the contract of full_solve_complete"""
  legs, logs, tensors, _ = network(c, w)
  branch = [None, 3][c.pick(2)]
  log = []
  if w.sym:

    def full(log_adj, max_branch=None):
      c.fact("the bound on the branches is passed on", max_branch == branch)
      for i, j in np.ndindex(*log_adj.shape):
        w.same("the table of the network is passed on", log_adj[i, j],
               table(w, legs, logs)[i][j])
      n, seq, ts, adj = len(legs), [], [], log_adj.tolist()
      while n > 1:
        js = [(j, i) for i in range(n) for j in range(i)]
        seq.append(js[core.CTX.choose(len(js)) if len(js) > 1 else 0])
        ts.append(step_cost(adj, *seq[-1]))
        adj = merge(adj, *seq[-1])
        n -= 1
      log.append((w.cost(ts), object()))
      return (np.array(seq, dtype=int).reshape(len(seq), 2).T, *log[-1])

    c.patch_obj(ni, "full_solve_complete", full)
  given = [list(x) for x in legs]
  order, cost, optimal = c.value(ni.ncon_solver, tensors, given, branch)
  c.fact("labels unchanged", given == legs)
  check_order(c, legs, order, "ncon_solver")
  if w.sym:
    c.fact("cost and flag are those of the search",
           cost is log[0][0] and optimal is log[0][1])
  c.cover()
