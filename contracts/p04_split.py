"""P04: splitting a node."""
import itertools
import tensornetwork as tn
from tensornetwork import network_components as nc
from tensornetwork import network_operations as no
from pyvc.contract import contract
from contracts.netlib import *

M = "tensornetwork.network_operations:"


def setup(c):
  """A node of rank 2..4, possibly attached to a second node, and an ordered
  split of its edges."""
  n = c.pick([2, 3, 4] if c.thorough else [2, 3])
  perm = c.pick(list(itertools.permutations(range(n))))
  cut = c.pick(list(range(1, n)))
  second = c.pick([False, True])
  l1 = [f"a{i}" for i in range(n)]
  legs = [l1]
  if second:
    j = c.pick(list(range(n)))
    l1[j] = "s"
    legs.append(["b0", "s"])
  net = Net(c, legs, orient=second, names=c.flag())
  left = [net.edge[l1[p]] for p in perm[:cut]]
  right = [net.edge[l1[p]] for p in perm[cut:]]
  lab = [l1[p] for p in perm]
  return net, left, right, lab, cut


def factors(c, net, what, L, R, left, right, new):
  c.fact(f"{what}: left factor carries the left edges, then the new one",
         len(L.edges) == len(left) + 1 and all(
             x is y for x, y in zip(L.edges, left + [new])))
  c.fact(f"{what}: right factor carries the new edge, then the right edges",
         len(R.edges) == len(right) + 1 and all(
             x is y for x, y in zip(R.edges, [new] + right)))


def finish(c, what, net, parts, want):
  nodes = parts + net.nodes[1:]
  c.same(f"{what}: the value of the network", network_value(
      c, nodes, [net.edge[l] for l in net.open]), want)
  wf(c, what, nodes)
  c.fact(f"{what}: the old node is left with fresh dangling edges",
         all(e.is_dangling() and e.node1 is net.nodes[0] and e.axis1 == i
             for i, e in enumerate(net.nodes[0].edges)))
  c.cover()


def reference(c, net, u, s, v, labs, cut):
  """U S V with the value of the remaining network."""
  left, right = labs[:cut], labs[cut:]
  return c.einsum([left + ["x"], ["x"], ["x"] + right] + net.legs[1:],
                  net.open, [u, s, v] + net.tensors[1:])


@contract("P04", [M + "split_node", M + "split_node_full_svd"],
          modes=("bounded",), replay=True,
          note="all entries and dimensions; rank up to 3 (4 thorough), every "
          "ordered split, six truncation settings")
def split_svd(c):
  net, left, right, labs, cut = setup(c)
  a = net.nodes[0]
  opts = c.pick([{}, dict(max_singular_values=2),
                 dict(max_truncation_err=0.9),
                 dict(max_truncation_err=0.3, relative=True),
                 dict(max_singular_values=3, max_truncation_err=1.5),
                 dict(max_singular_values=3, max_truncation_err=0.4,
                      relative=True)])
  full = c.flag()
  t = c.einsum([net.legs[0]], labs, [net.tensors[0]])
  bopts = dict(opts)
  if "max_truncation_err" in bopts:
    bopts["max_truncation_error"] = bopts.pop("max_truncation_err")
  u, s, v, disc = c.backend().svd(t, cut, **bopts)
  names = c.flag()
  if full:
    kw = dict(left_edge_name="le", right_edge_name="re") if names else {}
    L, S, R, tr = c.value(no.split_node_full_svd, a, left, right,
                          left_name="L", middle_name="S", right_name="R",
                          **opts, **kw)
    e1, e2 = L.edges[-1], R.edges[0]
    c.fact("full svd: edges of the factors", all(
        x is y for x, y in zip(L.edges, left)) and len(L.edges) == cut + 1 and
           all(x is y for x, y in zip(R.edges[1:], right)) and
           len(R.edges) == len(right) + 1)
    c.fact("full svd: middle node joins both", len(S.edges) == 2 and
           S.edges[0] is e1 and S.edges[1] is e2)
    c.same("full svd: U", L.tensor, u)
    c.same("full svd: S", S.tensor, c.einsum([["x"]], ["x", "x"], [s])
           if not c.concrete else __import__("numpy").diag(s))
    c.same("full svd: V", R.tensor, v)
    parts = [L, S, R]
    c.fact("names", (L.name, S.name, R.name) == ("L", "S", "R"))
    if names:
      c.fact("edge names", (e1.name, e2.name) == ("le", "re"))
  else:
    kw = dict(edge_name="cut") if names else {}
    L, R, tr = c.value(no.split_node, a, left, right, left_name="L",
                       right_name="R", **opts, **kw)
    factors(c, net, "split_node", L, R, left, right, L.edges[-1])
    parts = [L, R]
    c.fact("names", (L.name, R.name) == ("L", "R"))
    if names:
      c.fact("edge name", L.edges[-1].name == "cut")
  c.same("the discarded values are those of the decomposition", tr, disc)
  finish(c, "svd split", net, parts, reference(c, net, u, s, v, labs, cut)
         if opts else net.value(net.open))


@contract("P04", [M + "split_node_qr", M + "split_node_rq"], modes=("bounded",),
          replay=True, note="all entries and dimensions; rank up to 3 "
          "(4 thorough), every ordered split")
def split_qr_rq(c):
  net, left, right, labs, cut = setup(c)
  a = net.nodes[0]
  kind = c.pick(["qr", "rq"])
  fn = no.split_node_qr if kind == "qr" else no.split_node_rq
  names = c.flag()
  L, R = c.value(fn, a, left, right, left_name="L", right_name="R",
                 **(dict(edge_name="cut") if names else {}))
  factors(c, net, kind, L, R, left, right, L.edges[-1])
  c.fact("names", (L.name, R.name) == ("L", "R"))
  if names:
    c.fact("edge name", L.edges[-1].name == "cut")
  k = L.tensor.shape[-1]
  if kind == "qr":
    idx = [f"l{i}" for i in range(cut)]
    c.same("qr: the left factor is isometric",
           c.einsum([idx + ["x"], idx + ["y"]], ["x", "y"],
                    [L.tensor, c.conj(L.tensor)]), c.eye(k))
  else:
    idx = [f"r{i}" for i in range(len(right))]
    c.same("rq: the right factor is isometric",
           c.einsum([["x"] + idx, ["y"] + idx], ["x", "y"],
                    [R.tensor, c.conj(R.tensor)]), c.eye(k))
  finish(c, kind, net, [L, R], net.value(net.open))
