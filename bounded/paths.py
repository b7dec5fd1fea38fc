"""Executable contracts: P16 (contraction-order solvers)."""
import itertools
import numpy as np
import tensornetwork as tn
from tensornetwork.contractors.custom_path_solvers import pathsolvers as ps
from tensornetwork.contractors.custom_path_solvers import nconinterface as ni
from bounded.core import scenario, require, same

TOL = 1e-5


def step(adj, j, i):
  """Merge tensor i into tensor j of a table of bond sizes (logs)."""
  n = len(adj)
  keep = [k for k in range(n) if k != i]
  new = adj.copy()
  new[j, :] = adj[j, :] + adj[i, :]
  new[:, j] = adj[:, j] + adj[:, i]
  new[j, j] = adj[j, j] + adj[i, i]
  return new[np.ix_(keep, keep)]


def logsum(costs):
  if not costs:
    return -np.inf
  m = max(costs)
  return m + np.log10(sum(10**(c - m) for c in costs))


def step_cost(adj, j, i):
  return adj[j].sum() + adj[i].sum() - adj[j, i]


def sequence_cost(adj, orders, msg):
  """Checks that the sequence is complete and valid, and prices it."""
  n = len(adj)
  orders = np.asarray(orders)
  require(orders.shape == (2, n - 1),
          f"{msg}: {orders.shape} is not a complete sequence for {n} tensors")
  costs = []
  for j, i in orders.T:
    require(0 <= j < len(adj) and 0 <= i < len(adj) and i != j,
            f"{msg}: step ({j}, {i}) with {len(adj)} tensors left")
    costs.append(step_cost(adj, j, i))
    adj = step(adj, j, i)
  require(len(adj) == 1, msg + ": more than one tensor left")
  return logsum(costs)


def best_cost(adj):
  """Cheapest sequence: outer products only when nothing else is possible."""
  memo = {}

  def go(adj, groups):
    if len(adj) == 1:
      return 0.0
    key = groups
    if key in memo:
      return memo[key]
    n = len(adj)
    pairs = [(j, i) for i in range(n) for j in range(i) if adj[j, i] > 0]
    if not pairs:
      pairs = [(j, i) for i in range(n) for j in range(i)]
    r = np.inf
    for j, i in pairs:
      g = list(groups)
      g[j] = g[j] | g[i]
      del g[i]
      r = min(r, 10**step_cost(adj, j, i) + go(step(adj, j, i), tuple(g)))
    memo[key] = r
    return r

  return np.log10(go(adj, tuple(frozenset([k]) for k in range(len(adj)))))


def network(rng, nmax):
  """Labels and tensor shapes of a random network."""
  n = rng.int(2, nmax)
  kind = rng.choice(["random", "chain", "ones", "disconnected", "dense"])
  legs = [[] for _ in range(n)]
  dims = {}
  nxt = 1
  pool = [1] if kind == "ones" else rng.choice([[2, 3], [1, 2, 3, 5], [2], [2, 7]])
  pairs = list(itertools.combinations(range(n), 2))
  if kind == "chain":
    use = [(k, k + 1) for k in range(n - 1)]
    if rng.bool():
      use.append((0, n - 1))
  elif kind == "dense":
    use = pairs if n <= 4 else rng.shuffled(pairs)[:6]
  elif kind == "disconnected":
    cut = rng.int(1, n - 1)
    use = [p for p in pairs if (p[0] < cut) == (p[1] < cut) and rng.bool(0.8)]
  else:
    use = [p for p in pairs if rng.bool(0.5)]
  if rng.bool(0.3) and use:
    use = use + [rng.choice(use)]            # a double bond
  for a, b in use:
    dims[nxt] = rng.choice(pool)
    legs[a].append(nxt)
    legs[b].append(nxt)
    nxt += 1
  if rng.bool(0.3):
    k = rng.int(0, n - 1)                    # a trace
    dims[nxt] = rng.choice(pool)
    legs[k] += [nxt, nxt]
    nxt += 1
  openl = 0
  for _ in range(rng.int(0, 4)):
    k = rng.int(0, n - 1)
    openl -= 1
    dims[openl] = rng.choice(pool)
    legs[k].append(openl)
  perm = rng.perm(nxt - 1)
  ren = {k + 1: perm[k] + 1 for k in range(nxt - 1)}
  legs = [[ren.get(l, l) for l in rng.shuffled(x)] for x in legs]
  dims = {ren.get(l, l): d for l, d in dims.items()}
  rng.note(kind, legs, dims)
  return legs, dims


def true_adj(legs, dims):
  n = len(legs)
  adj = np.zeros((n, n))
  for l, d in dims.items():
    where = [k for k in range(n) for x in legs[k] if x == l]
    if len(where) == 1:
      adj[where[0], where[0]] += np.log10(d)
    elif where[0] != where[1]:
      adj[where[0], where[1]] += np.log10(d)
      adj[where[1], where[0]] += np.log10(d)
  return adj


def matrix(rng, nmax):
  """A log-adjacency matrix, sometimes with scalars and exact ties."""
  if rng.bool(0.6):
    return true_adj(*network(rng, nmax))
  n = rng.int(2, nmax)
  a = np.zeros((n, n))
  for i in range(n):
    for j in range(i + 1):
      if rng.bool(0.6):
        a[i, j] = a[j, i] = rng.choice(
            [np.log10(2), np.log10(3), np.log10(7), 0.3, 1.0, 0.0,
             float(rng.r.rand())])
  rng.note("adjacency", a.tolist())
  return a


@scenario("P16", quick=400, thorough=4000)
def greedy_orders(rng):
  adj = matrix(rng, 7)
  for f in (ps.greedy_size_solve, ps.greedy_cost_solve):
    given = adj.copy()
    orders, cost = f(given)
    require(np.array_equal(given, adj), f.__name__ + " changed its argument")
    want = sequence_cost(adj, orders, f.__name__)
    require(abs(want - cost) < TOL,
            f"{f.__name__}: reports {cost}, the sequence costs {want}")


@scenario("P16", quick=250, thorough=2500)
def exhaustive_order(rng):
  adj = matrix(rng, 6)
  branch = rng.choice([None, None, 1, 2, 5, 50])
  given = adj.copy()
  orders, cost, optimal = ps.full_solve_complete(given, max_branch=branch)
  require(np.array_equal(given, adj), "full_solve_complete changed its argument")
  want = sequence_cost(adj, orders, "full_solve_complete")
  require(abs(want - cost) < TOL,
          f"reports {cost}, the sequence costs {want} (max_branch {branch})")
  require(isinstance(bool(optimal), bool), "flag")
  if branch is None or optimal:
    best = best_cost(adj)
    require(cost <= best + TOL,
            f"reports {cost} (max_branch {branch}, optimal {optimal}), "
            f"the cheapest sequence costs {best}")
  for f in (ps.greedy_size_solve, ps.greedy_cost_solve):
    require(cost <= f(adj)[1] + TOL, "worse than " + f.__name__)


def _arrays(rng, legs, dims):
  return [rng.r.randint(-2, 3, size=[dims[l] for l in x]).astype(float)
          for x in legs]


def _dense(legs, tensors):
  labs = sorted({l for x in legs for l in x})
  m = {l: k for k, l in enumerate(labs)}
  out = sorted([l for l in labs if l < 0], reverse=True)
  args = []
  for t, x in zip(tensors, legs):
    args += [t, [m[l] for l in x]]
  return np.einsum(*args, [m[l] for l in out])


@scenario("P16", quick=250, thorough=2500)
def ncon_orders(rng):
  """ncon_solver's order is complete, priced as ncon_cost_check prices it and
  does not change the value of the network."""
  legs, dims = network(rng, 5)
  tensors = _arrays(rng, legs, dims)
  given = [list(x) for x in legs]
  adj = ni.ncon_to_adj(tensors, given)
  same(adj, true_adj(legs, dims), "ncon_to_adj")
  branch = rng.choice([None, 1, 3])
  order, cost, _ = ni.ncon_solver(tensors, given, max_branch=branch)
  require(given == legs, "ncon_solver changed the labels")
  internal = sorted(l for l in dims if l > 0)
  require(sorted(int(x) for x in order) == internal,
          "the order must list every internal label once", list(order))
  same(tn.ncon(tensors, given, con_order=[int(x) for x in order]),
       _dense(legs, tensors), "value of the network in that order")
  # free-form sequences through the translation
  n = len(legs)
  seq = np.zeros((2, n - 1), dtype=int)
  left = n
  for k in range(n - 1):
    i = rng.int(1, left - 1)
    seq[:, k] = (rng.int(0, i - 1), i)
    left -= 1
  rng.note("sequence", seq.tolist())
  order = ni.ord_to_ncon(given, seq.copy())
  require(sorted(int(x) for x in order) == internal,
          "ord_to_ncon must list every internal label once", list(order))
  cur = [[l for l in x if x.count(l) == 1] for x in legs]
  pos = {int(l): k for k, l in enumerate(order)}
  # labels of one step come together and in the order of the steps
  stage, at = {}, 1
  for x in legs:
    for l in x:
      if x.count(l) == 2:
        stage[l] = 0
  for j, i in seq.T:
    for l in set(cur[j]) & set(cur[i]):
      stage[l] = at
    cur[j] = [l for l in cur[j] + cur[i]
              if (l in cur[j]) != (l in cur[i])]
    del cur[i]
    at += 1
  ranks = [stage[int(l)] for l in order]
  require(ranks == sorted(ranks), "labels out of the order of the sequence",
          list(order), seq.tolist())
  same(tn.ncon(tensors, given, con_order=[int(x) for x in order]),
       _dense(legs, tensors), "value in the translated order")


def cost_of_order(legs, dims, order):
  """Cost of contracting the labels in this order, outer products last
  (smallest first)."""
  cur = [frozenset(l for l in x if x.count(l) == 1) for x in legs]
  trace = {l for x in legs for l in x if x.count(l) == 2}
  costs = []
  order = [l for l in order if l not in trace]
  lg = lambda s: sum(np.log10(dims[l]) for l in s)
  while order:
    a, b = [x for x in range(len(cur)) if order[0] in cur[x]]
    shared = cur[a] & cur[b]
    costs.append(lg(cur[a] | cur[b]))
    new = cur[a] ^ cur[b]
    cur = [x for k, x in enumerate(cur) if k not in (a, b)] + [new]
    order = [l for l in order if l not in shared]
  sizes = sorted(lg(x) for x in cur)
  while len(sizes) > 1:
    s = sizes[0] + sizes[1]
    costs.append(s)
    sizes = sorted(sizes[2:] + [s])
  return logsum(costs)


@scenario("P16", quick=200, thorough=2000)
def reported_costs(rng):
  legs, dims = network(rng, 5)
  tensors = [np.zeros([dims[l] for l in x]) for x in legs]
  internal = [l for l in dims if l > 0]
  order = rng.shuffled(internal)
  given = rng.choice([None, order, order])
  got = ni.ncon_cost_check(tensors, [list(x) for x in legs],
                           None if given is None else list(given))
  want = cost_of_order(legs, dims, sorted(internal) if given is None else order)
  require(abs(got - want) < TOL or got == want,
          f"ncon_cost_check: {got}, the order costs {want}", given)


@scenario("P16", quick=60, thorough=400)
def single_tensor(rng):
  """A network of one tensor needs no contraction."""
  legs = [rng.shuffled([-1, 1, 1])] if rng.bool() else [[-1]]
  dims = {l: rng.int(1, 3) for l in set(legs[0])}
  tensors = _arrays(rng, legs, dims)
  order, cost, optimal = ni.ncon_solver(tensors, legs,
                                        max_branch=rng.choice([None, 1, 4]))
  require([int(x) for x in order] == ([1] if len(legs[0]) == 3 else []),
          "order of a single tensor", list(order))
  require(cost == -np.inf, f"cost of no contraction is log10(0), not {cost}")
  for f in (ps.greedy_size_solve, ps.greedy_cost_solve):
    o, c = f(true_adj(legs, dims))
    require(np.asarray(o).shape == (2, 0) and c == -np.inf, f.__name__)
