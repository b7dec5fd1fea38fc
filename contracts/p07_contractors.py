"""P07: every contractor returns the network's value.

opt_einsum is replaced by its contract: it is handed the nodes' edge sets, the
surviving edges and the dimensions, and may answer with any complete sequence
of pairwise contractions.  All such sequences are explored."""
import itertools
import opt_einsum
import tensornetwork as tn
from tensornetwork import network_components as nc
from tensornetwork.contractors.opt_einsum_paths import path_contractors as pc
from tensornetwork.contractors import bucket_contractor as bk
from pyvc.contract import contract
from contracts.netlib import *

P = "tensornetwork.contractors.opt_einsum_paths.path_contractors:"
U = "tensornetwork.contractors.opt_einsum_paths.utils:"
TRUST = ("opt_einsum's path functions return a complete sequence of pairwise "
         "contractions of the sets they are given (any such sequence)",)

NETS = ["a", "aa", "aab", "aabb", "ab", "", "ab bc", "ab ab", "ab ba", "a b",
        "abc abd", "abc bca", "aab bc", "aab bcc", "a ",
        "ab bc cd", "ab bc ca", "ab bcd dc", "abx aby c", "a b c", "aab b c",
        "ab a b", "abc ab c", " a a"]
NETS4 = ["ab bc cd da", "a ab b c", "abc a b c", "aab bc cd d", "ab ab cd cd"]


def net(c, rows):
  return Net(c, [list(r) for r in rows.split(" ")], names=False)


def any_path(c, n):
  path = []
  while n > 1:
    ps = list(itertools.combinations(range(n), 2))
    path.append(c.pick(ps))
    n -= 1
  return path


def oracle(c, seen):
  """opt_einsum's contract: precondition checked, any answer returned."""

  def alg(inputs, output, sizes, memory_limit=None, **kw):
    cnt = {}
    ok = True
    for s in inputs:
      for e in s:
        cnt[e] = cnt.get(e, 0) + 1
    for e, k in cnt.items():
      ok = ok and k == (1 if e in output else 2) and not e.is_disabled
    ok = ok and all(e in cnt for e in output)
    c.fact("the path function is given the network: every surviving edge once, "
           "every contracted edge twice", ok)
    c.fact("the path function is given the edge dimensions",
           all(c.same_dim(sizes[e], e.dimension) for e in cnt))
    seen.append((memory_limit, kw))
    return any_path(c, len(inputs))

  return alg


def use_oracle(c):
  seen = []
  for n in ("greedy", "branch", "dynamic_programming"):
    c.patch_obj(opt_einsum.paths, n, oracle(c, seen))
  return seen


def run(c, which, nodes, **kw):
  if which == "custom":
    seen = []
    return c.value(pc.custom, nodes, oracle(c, seen), **kw)
  return c.value(getattr(pc, which), nodes, **kw)


@contract("P07", [P + "base", P + "optimal", P + "branch", P + "greedy",
                  P + "auto", P + "custom", U + "get_path", U + "multi_remove",
                  "tensornetwork.network_components:contract_between",
                  "tensornetwork.network_components:contract_parallel"],
          modes=("bounded",), replay=True, trusted=TRUST,
          note="all entries and dimensions; networks of up to four nodes "
          "(traces, parallel edges, disconnected parts, scalars), every "
          "contraction sequence, every output order, every node order")
def contractors(c):
  rows = c.pick(NETS + (NETS4 if c.thorough else NETS4[:3]))
  n = net(c, rows)
  which = c.pick(["greedy", "branch", "optimal", "auto", "custom"]
                 if len(n.nodes) < 3 or c.thorough else ["greedy"])
  use_oracle(c)
  nodes = list(n.nodes)
  if len(nodes) == 3:
    nodes = [nodes[i] for i in c.pick(
        list(itertools.permutations(range(3))) if c.thorough
        else [(0, 1, 2), (1, 2, 0), (2, 1, 0)])]
  elif len(nodes) != 1 and c.pick(2):
    nodes.reverse()
  order = list(n.open)
  if len(order) <= (3 if len(nodes) < 4 else 1):
    order = c.pick([list(p) for p in itertools.permutations(order)])
  # any iterable of nodes
  given = [list, tuple, iter][(len(order) + len(nodes)) % 3]
  r = run(c, which, given(nodes), output_edge_order=[n.edge[l] for l in order])
  same_value(c, "contractor", r, n, order)
  wf(c, "contractor", [r])
  c.cover()


@contract("P07", [P + "base", P + "auto", P + "greedy"], modes=("bounded",),
          replay=True, trusted=TRUST,
          note="all entries and dimensions; as `contractors`, default order and "
          "ignore_edge_order")
def contractors_default(c):
  n = net(c, c.pick(NETS))
  which = c.pick(["greedy"])
  use_oracle(c)
  if c.pick(2):
    r = run(c, which, list(n.nodes), ignore_edge_order=True)
    same_value(c, "contractor ignoring the edge order", r, n)
  else:
    o = c.call(getattr(pc, which), list(n.nodes))
    if len(n.open) > 1:
      c.fact("an ambiguous output order is refused",
             not o.ok and isinstance(o.exc, ValueError), repr(o.exc))
      return
    if not o.ok:
      c.unexpected(o)
    r = o.value
    same_value(c, "contractor with default order", r, n, list(n.open))
  wf(c, "contractor", [r])
  c.cover()


@contract("P07", [P + "base"], modes=("bounded",), replay=True, trusted=TRUST,
          note="all dimensions; wrong output orders")
def wrong_output_order(c):
  n = net(c, c.pick(["ab bc", "abc bd", "ab bc cd", "aab bc"]))
  use_oracle(c)
  edges = [n.edge[l] for l in n.open]
  bad = c.pick([edges[:-1], edges + [n.edge["b"]], [n.edge["b"]] + edges[1:]])
  o = c.call(pc.greedy, list(n.nodes), output_edge_order=bad)
  c.fact("an output order that is not the surviving edges is refused",
         not o.ok and isinstance(o.exc, ValueError), repr(o))
  c.cover()


@contract("P07", [P + "contract_path", P + "path_solver"], modes=("bounded",),
          replay=True, trusted=TRUST,
          note="all entries and dimensions; networks of up to three nodes, every "
          "contraction sequence and output order")
def path_then_contract(c):
  rows = c.pick([x for x in NETS if x.strip()])
  n = net(c, rows)
  nodes = list(n.nodes)
  if rows in ("a", "aa", "aab", "aabb", "ab"):
    path = []
  else:
    path = any_path(c, len(nodes))
  order = c.pick([list(p) for p in itertools.permutations(n.open)]
                 if len(n.open) < 4 else [n.open])
  r = c.value(pc.contract_path, path, nodes, [n.edge[l] for l in order])
  same_value(c, "contract_path", r, n, order)
  wf(c, "contract_path", [r])
  c.cover()


COPY = [("x", "xa xb"), ("xx", "xxa"), ("xxx", "xa xb xc"), ("xyz", ""),
        ("x", "xa xab b"), ("x", "axx bx")]


@contract("P07", ["tensornetwork.contractors.bucket_contractor:bucket",
                  "tensornetwork.network_components:contract_copy_node",
                  "tensornetwork.network_components:CopyNode.get_partners",
                  "tensornetwork.network_components:"
                  "CopyNode.compute_contracted_tensor",
                  "tensornetwork.network_components:"
                  "CopyNode._make_einsum_expression"],
          modes=("bounded",), replay=True,
          note="all entries and dimensions; up to two copy nodes of rank up to 4 "
          "and three partners")
def bucket(c):
  """Rows use `x`, `y` for legs on the copy nodes x and y."""
  rows = c.pick(["xa xb", "xxa", "xa xb xc", "xab xb", "axx bx", "xa xab b",
                 "xay yb", "xy xya", "xa yb", "x xya y", "xab ybc x", "axbx"])
  c.patch_obj(nc.CopyNode, "make_copy_tensor",
              staticmethod(lambda rank, dim, dtype: c.delta(rank, dim)))
  legs = [list(r) for r in rows.split(" ")]
  labels = sorted({l for r in legs for l in r})
  dim = dict(zip(labels, c.dims(len(labels))))
  be = c.backend()
  tensors = [c.tensor(f"t{i}", [dim[l] for l in r]) for i, r in enumerate(legs)]
  nodes = [tn.Node(t, name=f"n{i}", backend=be) for i, t in enumerate(tensors)]
  copies, slots = {}, {}
  for l in "xy":
    where = [(i, k) for i, r in enumerate(legs) for k, m in enumerate(r)
             if m == l]
    if where:
      w = c.pick([list(p) for p in itertools.permutations(where)]
                 if len(where) < 4 else [where, where[::-1]])
      copies[l] = tn.CopyNode(len(where), dim[l], name="copy" + l, backend=be)
      for k, (i, j) in enumerate(w):
        a, b = copies[l][k], nodes[i][j]
        tn.connect(*((a, b) if c.pick(2) or k else (b, a)))
  edges = {}
  for i, r in enumerate(legs):
    for k, l in enumerate(r):
      if l in "xy":
        continue
      if l in edges:
        edges[l] = tn.connect(edges[l], nodes[i][k])
      else:
        edges[l] = nodes[i][k]
  cnt = {l: sum(r.count(l) for r in legs) for l in labels}
  order = [copies[l] for l in c.pick([list(p) for p in itertools.permutations(
      copies)])]
  left = c.value(bk.bucket, nodes + list(copies.values()), order)
  left = list(left)
  out = [l for l in labels if l not in "xy" and cnt[l] == 1]
  c.fact("bucket: no copy node is left",
         not any(isinstance(m, nc.CopyNode) for m in left))
  found = {e for m in left for e in m.edges}
  c.fact("bucket: the surviving edges are those of the network",
         all(edges[l] in found for l in edges) and len(found) == len(edges))
  c.same("bucket: the remaining network has the value of the original",
         network_value(c, left, [edges[l] for l in out]),
         c.einsum(legs, out, tensors))
  wf(c, "bucket", left)
  c.cover()


@contract("P07", ["tensornetwork.network_components:contract_copy_node"],
          modes=("bounded",), replay=True, note="all dimensions")
def copy_dangling(c):
  d = c.dims(1)[0]
  be = c.backend()
  cp = tn.CopyNode(2, d, backend=be)
  n = tn.Node(c.tensor("t", [d]), backend=be)
  tn.connect(cp[c.pick(2)], n[0])
  o = c.call(nc.contract_copy_node, cp)
  c.fact("a copy node with a dangling edge is refused",
         not o.ok and isinstance(o.exc, ValueError), repr(o.exc))
  c.cover()
